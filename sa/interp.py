"""Abstract interpreter for the Python subset used by the package.

It evaluates functions of /repo (and, where named, of the installed bases) over
the tensor normal form of tf.py: no code of the package is imported or run.
Paths are partitioned by the truth value of the conditions met (the same
condition has one truth value per path), loops are summarised by one generic
iteration from an arbitrary loop-head state, calls are followed into the
callee's source, and effects (raise, log, attribute stores, writes into arrays,
random draws, calls of external objects) are recorded in order.
"""
import ast
import os
import sys
from fractions import Fraction
import rat as R
import tf

SITE = "/opt/venv/lib/python3.12/site-packages"
REPO = os.environ.get("SA_REPO", "/repo")


class Unsupported(tf.Unsupported):
    def __init__(self, msg, node=None, fn=None):
        super().__init__(msg)
        self.msg, self.node, self.fn = msg, node, fn


class PyRaise(Exception):
    """an exception raised by the interpreted program"""
    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Restart(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------ values
class DT:
    """dtype: kind b i f c or '?'"""
    def __init__(self, kind, name=None):
        self.kind, self.name = kind, name

    def __eq__(self, o):
        return isinstance(o, DT) and o.kind == self.kind

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "dtype(%s)" % self.kind


class Arr:
    """an array (or numpy scalar / symbolic number when rank is 0)"""
    __slots__ = ("_t", "dt", "roots", "parent", "ver", "pver", "serial", "py", "tr", "masks", "meta", "iface")

    def __init__(self, t, dt="f", roots=None, py=False):
        self._t = t
        self.dt = dt
        self.roots = roots if roots is not None else frozenset()
        self.parent = None          # (Arr, fwd, back)
        self.ver = 0
        self.pver = 0
        self.serial = None
        self.py = py                # a python number, not an array
        self.tr = False             # traced by autograd
        self.masks = None
        self.meta = None
        self.iface = None

    @property
    def t(self):
        if self.parent is not None:
            p = self.parent[0]
            p.t
            if p.ver != self.pver:
                self._t = self.parent[1](p.t)
                self.pver = p.ver
                self.ver += 1
        return self._t

    def set(self, t):
        if self.parent is not None:
            p, fwd, back = self.parent
            if back is None:
                raise Unsupported("write through a view")
            p.set(back(p.t, t))
            self._t = t
            self.pver = p.ver
            self.ver += 1
        else:
            self._t = t
            self.ver += 1

    @property
    def shape(self):
        return self.t.shape

    @property
    def ndim(self):
        return self.t.rank

    def base(self):
        a = self
        while a.parent is not None:
            a = a.parent[0]
        return a

    def __repr__(self):
        s = tf.show(self.t, 2)
        return "Arr<%s>%s" % (self.dt, s if len(s) < 300 else s[:300] + "...")


class Func:
    def __init__(self, node, env, module, cls=None, qual=None):
        self.node, self.env, self.module, self.cls = node, env, module, cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or self.name
        self.defaults, self.kwdefaults = [], []
        self.attrs = {}
        self.extra_pos = False
        self.ctxmgr = False

    def __repr__(self):
        return "<function %s>" % self.qual


class Bound:
    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class Native:
    def __init__(self, name, fn, mod=""):
        self.name, self.fn, self.mod = name, fn, mod
        self.attrs = {}

    def __repr__(self):
        return "<native %s>" % self.name


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class ClassObj:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self._mro = None

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, ClassObj):
                if name in c.ns:
                    return c.ns[name], c
            else:
                v = ext_attr(c, name)
                if v is not None:
                    return v, c
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


def _c3(c):
    seqs = [list(b.mro()) if isinstance(b, ClassObj) else [b] for b in c.bases] + [list(c.bases)]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            h = seqs[0][0]
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


def ext_attr(c, name):
    if isinstance(c, Opaque):
        return None
    return None


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.serial = None
        self.tag = None

    def __repr__(self):
        return "<%s instance>" % self.cls.name


class Exc(Inst):
    def __init__(self, cls, args):
        super().__init__(cls)
        self.attrs["args"] = tuple(args)

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, ", ".join(map(str, self.attrs["args"])))


class Module:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns

    def __repr__(self):
        return "<module %s>" % self.name


class Opaque:
    """an external object about which nothing is assumed"""
    def __init__(self, name, call=None, attrs=None):
        self.name, self.call, self.attrs = name, call, attrs or {}
        self.serial = None

    def __repr__(self):
        return "<external %s>" % self.name


class ListInst(list):
    """an instance of a class that derives from list"""
    def __init__(self, items=(), cls=None):
        list.__init__(self, items)
        self.cls, self.attrs = cls, {}


def like_seq(v, items):
    """a sequence of the type of v"""
    if isinstance(v, ListInst):
        return ListInst(items, v.cls)
    return type(v)(items)


class SymList:
    """[elem(i) for i in range(n)] with n symbolic"""
    def __init__(self, n, label, elem, shared=frozenset()):
        self.n, self.label, self.elem = n, label, elem
        self.shared = shared            # serials of the objects that are one and the same for all elements


class GrowList:
    """a list that grows in a loop that is read once: nothing of it is known until the loop is left"""
    def __init__(self, items, rec):
        self.items, self.rec, self.added, self.irregular = list(items), rec, [], False

    def __repr__(self):
        return "<list that grows in a loop>"


class SymRange:
    def __init__(self, n):
        self.n = n


class SymEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start


class SymZip:
    def __init__(self, its):
        self.its = its


class NewAxis:
    pass


UNDEF = object()


class Env:
    __slots__ = ("vars", "parent", "func", "globals_", "nonlocals")

    def __init__(self, parent=None, func=None):
        self.vars = {}
        self.parent = parent
        self.func = func
        self.globals_ = ()
        self.nonlocals = ()


# ------------------------------------------------------------------ paths
class Event:
    def __init__(self, kind, node, fn, **kw):
        self.kind, self.node, self.fn = kind, node, fn
        self.line = getattr(node, "lineno", 0)
        self.file = fn.module.file if fn is not None and hasattr(fn.module, "file") else ""
        self.fname = fn.qual if fn is not None else "<module>"
        self.__dict__.update(kw)

    def where(self):
        f = self.file.replace(REPO + "/", "")
        return "%s:%s:%d" % (f, self.fname, self.line)

    def __repr__(self):
        return "Event(%s @%s)" % (self.kind, self.where())


class LoopRec:
    def __init__(self, node, fn, ordinal):
        self.node, self.fn, self.ordinal = node, fn, ordinal
        self.init = {}
        self.phi = {}
        self.next = {}
        self.mode = None
        self.peeled = 0
        self.exit = None
        self.label = None
        self.n = None
        self.count = None
        self.heads = []       # arrays in scope at the head of each iteration that was not summarised

    def where(self):
        return "%s:%s:%d" % (self.fn.module.file.replace(REPO + "/", ""), self.fn.qual, self.node.lineno)


class Unread:
    """the value a variable of a kind that cannot be summarised has at the head of a loop"""
    def __init__(self, key, kind):
        self.key, self.kind = key, kind


def scope_arrays(env):
    """values of the arrays the variables in scope hold"""
    out = []
    while env is not None:
        for v in env.vars.values():
            for x in v if isinstance(v, (list, tuple)) else (v,):
                if isinstance(x, Arr):
                    out.append(x.t)
        env = env.parent
    return out


class Cond:
    def __init__(self, kind, t, val, node, fn):
        self.kind, self.t, self.val, self.node, self.fn = kind, t, val, node, fn

    def where(self):
        return "%s:%s:%d" % (self.fn.module.file.replace(REPO + "/", ""), self.fn.qual,
                             getattr(self.node, "lineno", 0)) if self.fn else "?"

    def __repr__(self):
        return "%s(%s)=%s" % (self.kind, tf.show(self.t, 2) if hasattr(self.t, "terms") else self.t, self.val)


class Path:
    def __init__(self, decisions, info):
        self.decisions = decisions
        self.taken = []
        self.info = info
        self.events = []
        self.conds = []
        self.memo = {}
        self.loops = []
        self.nloop = 0
        self.nserial = 0
        self.sites = {}
        self.byserial = {}
        self.objs = []
        self.outcome = None
        self.result = None
        self.nsteps = 0
        self.names = {}
        self.assume = {}

    def next_serial(self):
        self.nserial += 1
        return self.nserial

    def fresh_name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else "%s'%d" % (base, k)

    def choose(self):
        k = len(self.taken)
        v = self.decisions[k] if k < len(self.decisions) else True
        self.taken.append(v)
        return v


def explore(program, build, max_paths=600, on=None, info=None):
    """all paths of build(interp).  build is called afresh for every path."""
    info = {} if info is None else info
    restarts = 0
    while True:
        results, pending = [], [[]]
        try:
            while pending:
                d = pending.pop()
                p = Path(d, info)
                it = Interp(program, p)
                try:
                    p.result = build(it)
                    p.outcome = "return"
                except PyRaise as e:
                    p.outcome, p.result = "raise", e.exc
                except PathEnd as e:
                    p.outcome, p.result = e.why, None
                except tf.Unsupported as e:
                    if getattr(e, "node", None) is None:
                        e.node, e.fn = it.node, it.fn
                    e.events, e.conds = p.events, list(p.conds)
                    raise
                p.interp = it
                results.append(p)
                for k in range(len(d), len(p.taken)):
                    pending.append(p.taken[:k] + [not p.taken[k]])
                if len(results) > max_paths:
                    raise Unsupported("too many paths")
            return [p for p in results if p.outcome != "dead"]
        except Restart:
            restarts += 1
            if restarts > 60:
                raise Unsupported("loop summary does not stabilise")


# ------------------------------------------------------------------ program
class ModSrc:
    def __init__(self, name, file):
        self.name, self.file = name, file
        with open(file, encoding="utf-8") as f:
            self.src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.src)
        self.pkg = name if file.endswith("__init__.py") else name.rpartition(".")[0]


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.consulted = set()
        self.visited = set()

    def find(self, name):
        """source file of a module of the package or of an interpreted base"""
        if name.split(".")[0] == "robuststats":
            root = self.repo
        elif name == "probes":
            root = os.path.dirname(os.path.abspath(__file__))
        else:
            root = SITE
        p = os.path.join(root, *name.split("."))
        for f in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.exists(f):
                return f
        return None

    def src(self, name):
        m = self.mods.get(name)
        if m is None:
            f = self.find(name)
            if f is None:
                raise Unsupported("no source for module %s" % name)
            m = self.mods[name] = ModSrc(name, f)
        self.consulted.add(m.file)
        return m


# modules whose source is interpreted (others are modelled or opaque)
INTERPRETED = ("robuststats", "probes")
INTERPRETED_EXACT = {"sklearn.covariance._empirical_covariance", "pymanopt.manifolds.product",
                     "pymanopt.manifolds.manifold", "pymanopt.tools.multi",
                     "pymanopt.manifolds.hermitian_x"}
REEXPORT = {("sklearn.covariance", "EmpiricalCovariance"): "sklearn.covariance._empirical_covariance",
            ("sklearn.covariance", "empirical_covariance"): "sklearn.covariance._empirical_covariance",
            ("pymanopt.manifolds", "Product"): "pymanopt.manifolds.product"}


def assigned_names(stmts):
    """(names rebound, names only updated in place) by the statements"""
    reb, aug = set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            reb.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            reb.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    tgt(m.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                aug.add(n.target.id)
        elif isinstance(n, (ast.For,)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            reb.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                reb.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in stmts:
        visit(s)
    return reb, aug


def is_zero(v):
    return not isinstance(v, bool) and isinstance(v, (int, Fraction, float)) and v == 0


_BUILTIN_EXC = {}


def exc_class(name):
    c = _BUILTIN_EXC.get(name)
    if c is None:
        py = getattr(__import__("builtins"), name)
        bases = [exc_class(b.__name__) for b in py.__bases__ if b is not object]
        c = _BUILTIN_EXC[name] = ClassObj(name, bases, {}, None)
        c.is_exc = True
    return c


def is_exc_class(c):
    return isinstance(c, ClassObj) and any(getattr(b, "is_exc", False) for b in c.mro())


class Interp:
    MAXSTEPS = 400000

    def __init__(self, program, path):
        self.prog = program
        self.path = path
        self.modules = {}
        self.stack = []
        self.force_merge = 0
        self.open_par = {}          # open label -> LoopRec of enclosing parallel loops
        self.yield_hook = None
        import ext as npm
        self.npm = npm
        self.node = None

    # ---------------------------------------------------------- events
    @property
    def fn(self):
        return self.stack[-1] if self.stack else None

    def event(self, kind, **kw):
        e = Event(kind, self.node, self.fn, **kw)
        self.path.events.append(e)
        return e

    def raise_(self, name, *args):
        e = Exc(exc_class(name), args)
        e.site = Event("raise", self.node, self.fn)
        raise PyRaise(e)

    def unsupported(self, msg):
        w = Event("", self.node, self.fn).where()
        raise Unsupported("%s [at %s]" % (msg, w), self.node, self.fn)

    # ---------------------------------------------------------- modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        top = name.split(".")[0]
        if top in INTERPRETED or name in INTERPRETED_EXACT:
            src = self.prog.src(name)
            m = Module(name, {})
            m.file = src.file
            m.src = src
            self.modules[name] = m
            env = Env()
            env.vars = m.ns
            m.ns["__name__"] = name
            save = self.stack, self.node
            self.stack = self.stack + [_ModFn(m)]
            self.exec_block(src.tree.body, env)
            self.stack, self.node = save
            return m
        m = self.npm.external_module(self, name)
        self.modules[name] = m
        return m

    def import_from(self, modname, attr):
        r = REEXPORT.get((modname, attr))
        if r is not None:
            return self.getattr(self.module(r), attr)
        m = self.module(modname)
        if isinstance(m, Module) and hasattr(m, "src"):
            if attr in m.ns:
                return m.ns[attr]
            f = self.prog.find(modname + "." + attr)
            if f:
                return self.module(modname + "." + attr)
            self.raise_("ImportError", "cannot import name %s from %s" % (attr, modname))
        return self.getattr(m, attr)

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        self.node = s
        self.path.nsteps += 1
        if self.path.nsteps > self.MAXSTEPS:
            raise Unsupported("step budget exhausted")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unsupported("statement %s" % type(s).__name__)
        m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Global(self, s, env):
        env.globals_ = tuple(env.globals_) + tuple(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(s.names)

    def x_Import(self, s, env):
        for a in s.names:
            if a.asname:
                self.bind(env, a.asname, self.module(a.name))
            else:
                self.module(a.name)
                self.bind(env, a.name.split(".")[0], self.module(a.name.split(".")[0]))

    def x_ImportFrom(self, s, env):
        cur = self.fn.module
        name = s.module or ""
        if s.level:
            base = cur.src.pkg.split(".")
            base = base[:len(base) - (s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                m = self.module(name)
                for k, v in m.ns.items():
                    if not k.startswith("_"):
                        self.bind(env, k, v)
                continue
            self.bind(env, a.asname or a.name, self.import_from(name, a.name))

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        self.bind(env, s.name, v)

    def make_func(self, s, env):
        cls = getattr(env, "func", None)
        outer = self.fn
        f = Func(s, env, self.fn.module)
        f.cls = self._cur_class
        prefix = ""
        if self._cur_class is not None and self._class_depth == len(self.stack):
            prefix = self._cur_class.name + "."
        elif outer is not None and not isinstance(outer, _ModFn):
            prefix = outer.qual + ".<locals>."
            f.cls = outer.cls
        f.qual = prefix + f.name
        a = s.args
        f.defaults = [self.eval(d, env) for d in a.defaults]
        f.kwdefaults = [None if d is None else self.eval(d, env) for d in a.kw_defaults]
        return f

    _cur_class = None
    _class_depth = -1

    def x_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        c = ClassObj(s.name, [b for b in bases if b is not self.npm.OBJECT], {}, self.fn.module)
        c.node = s
        save = self._cur_class, self._class_depth
        self._cur_class, self._class_depth = c, len(self.stack)
        e = Env(env)
        e.vars = c.ns
        e.func = "class"
        try:
            self.exec_block(s.body, e)
        finally:
            self._cur_class, self._class_depth = save
        for k in [k for k in c.ns if k.startswith("__") and not k.endswith("__")]:
            c.ns["_" + s.name.lstrip("_") + k] = c.ns.pop(k)
        v = c
        for b in bases:
            if isinstance(b, Native) and b.name in ("tqdm", "logging_tqdm"):
                v = b                        # a progress bar, whatever it displays
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        self.bind(env, s.name, v)

    def x_Return(self, s, env):
        raise _Return(self.eval(s.value, env) if s.value is not None else None)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Inst):
                    o.attrs.pop(self.mangle(t.attr), None)
                    self.event("delattr", obj=o, attr=t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if isinstance(o, (dict, list)):
                    del o[k]
                else:
                    self.unsupported("del subscript")
            else:
                self.unsupported("del")

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.eval(s.value, env)
            self.node = s
            r = self.inplace(op, cur, v)
            self.bind(env, t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, self.mangle(t.attr))
            v = self.eval(s.value, env)
            self.node = s
            self.setattr(o, self.mangle(t.attr), self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
            v = self.eval(s.value, env)
            self.node = s
            if isinstance(o, (list, dict, Inst, ListInst)):
                r = self.inplace(op, cur, v)
            elif isinstance(cur, Arr) and not cur.py and cur.ndim:
                # numpy: in-place on the view, then stored back
                r = self.binop(op, cur, v)
            else:
                r = self.inplace(op, cur, v)
            self.setitem(o, k, r)
        else:
            self.unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr) and not cur.py and not cur.tr:
            r = self.binop(op, cur, v)
            self.npm.write_into(self, cur, r)
            return cur
        if isinstance(cur, list) and op == "Add":
            if isinstance(v, SymList):
                self.unsupported("list += symbolic list")
            cur.extend(list(self.npm.iter_concrete(self, v)))
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.npm.unpack(self, v, len(t.elts) if not any(isinstance(e, ast.Starred) for e in t.elts) else None)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    self.raise_("ValueError", "not enough values to unpack")
                vals = list(vals[:i]) + [list(vals[i:len(vals) - after])] + list(vals[len(vals) - after:])
            elif len(vals) != len(t.elts):
                self.raise_("ValueError", "wrong number of values to unpack")
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.node = t
            self.setattr(o, self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            self.node = t
            self.setitem(o, k, v)
        else:
            self.unsupported("assignment target")

    def bind(self, env, name, v):
        if name in env.globals_:
            g = self.fn.module.ns
            self.event("globalwrite", name=name)
            g[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def lookup(self, name, env):
        e = env
        while e is not None:
            if e.func == "class" and e is not env:
                e = e.parent
                continue
            v = e.vars.get(name, UNDEF)
            if v is not UNDEF:
                if isinstance(v, Unread):
                    self.unsupported("loop variable %s of kind %s" % (name, v.kind))
                return v
            if name in e.vars:
                self.unsupported("variable %s used before its assignment in the loop" % name)
            e = e.parent
        m = self.fn.module
        if m is not None and name in m.ns:
            return m.ns[name]
        b = self.npm.builtin(self, name)
        if b is not UNDEF:
            return b
        self.raise_("NameError", name)

    def x_If(self, s, env):
        if len(s.body) == 1 and isinstance(s.body[0], ast.Assign) and len(s.body[0].targets) == 1 \
                and isinstance(s.body[0].targets[0], ast.Name):
            tgt, other = s.body[0].targets[0], None
            if not s.orelse:
                other = tgt
            elif len(s.orelse) == 1 and isinstance(s.orelse[0], ast.Assign) and len(s.orelse[0].targets) == 1 \
                    and ast.dump(s.orelse[0].targets[0]) == ast.dump(tgt):
                other = s.orelse[0].value
            if other is not None:
                m = self.minmax_test(s.test, s.body[0].value, other, env)
                if m is not None:
                    return self.assign(tgt, m, env)
        c = self.eval(s.test, env)
        self.node = s
        mt = self.merge_cond(c)
        if mt is not None:
            return self.merged_if(mt, s, env)
        if self.truth(c):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    # if-conversion inside per-element loops
    def merge_cond(self, c):
        if not self.open_par or not isinstance(c, Arr) or c.ndim:
            return None
        ls = tf.outer_labels(c.t)
        if any(l in self.open_par for l in ls):
            if self.npm.decide(self, c) is None:
                return c
        return None

    def merged_if(self, c, s, env):
        reb, aug = assigned_names(s.body + s.orelse)
        names = reb | aug
        before = {n: env.vars.get(n, UNDEF) for n in names}
        heap0 = self.heap_snapshot()
        res = []
        for body in (s.body, s.orelse):
            for n in names:
                if before[n] is UNDEF:
                    env.vars.pop(n, None)
                else:
                    env.vars[n] = before[n]
            self.heap_restore(heap0)
            nconds = len(self.path.taken)
            outc = None
            try:
                self.exec_block(body, env)
            except _Return as r:
                outc = r
            except (_Break, _Continue, PyRaise):
                self.unsupported("control transfer under a per-element condition")
            res.append(({n: env.vars.get(n, UNDEF) for n in names}, self.heap_snapshot(), outc))
        (v1, h1, r1), (v2, h2, r2) = res
        if (r1 is None) != (r2 is None):
            # if c: return x ; rest   is converted by the caller of the block
            raise _MergedReturn(c, r1 or r2, r1 is not None, v1, v2, h1, h2, before, heap0)
        for n in names:
            a, b = v1[n], v2[n]
            if a is b:
                if a is not UNDEF:
                    env.vars[n] = a
            elif a is UNDEF or b is UNDEF:
                env.vars[n] = UNDEF
            else:
                env.vars[n] = self.npm.select(self, c, a, b)
        self.heap_merge(c, h1, h2)
        if r1 is not None:
            raise _Return(self.npm.select(self, c, r1.v, r2.v))

    # ---------------------------------------------------------- heap snapshots
    def register(self, o):
        if o.serial is None:
            n = self.node
            site = (self.fn.qual if self.fn is not None else "", getattr(n, "lineno", 0), getattr(n, "col_offset", 0))
            k = self.path.sites.get(site, 0)
            self.path.sites[site] = k + 1
            o.serial = site + (k,)
            self.path.byserial[o.serial] = o
            self.path.objs.append(o)

    def heap_snapshot(self):
        snap = {}
        for o in self.path.objs:
            if isinstance(o, Arr):
                if o.parent is None:
                    snap[o.serial] = o._t
            elif isinstance(o, Inst):
                snap[o.serial] = dict(o.attrs)
        return snap

    def heap_restore(self, snap):
        for o in self.path.objs:
            if o.serial in snap:
                if isinstance(o, Arr):
                    if o.parent is None and o._t is not snap[o.serial]:
                        o._t = snap[o.serial]
                        o.ver += 1
                elif isinstance(o, Inst):
                    o.attrs = dict(snap[o.serial])

    def heap_merge(self, c, h1, h2):
        for o in self.path.objs:
            if o.serial in h1 and o.serial in h2:
                if isinstance(o, Arr):
                    if h1[o.serial] is not h2[o.serial]:
                        a, b = Arr(h1[o.serial], o.dt), Arr(h2[o.serial], o.dt)
                        o._t = self.npm.select(self, c, a, b).t
                        o.ver += 1
                    elif o._t is not h1[o.serial]:
                        o._t = h1[o.serial]
                        o.ver += 1
                elif isinstance(o, Inst):
                    d1, d2 = h1[o.serial], h2[o.serial]
                    out = {}
                    for k in set(d1) | set(d2):
                        if k not in d1 or k not in d2:
                            self.unsupported("attribute set under a per-element condition")
                        out[k] = d1[k] if d1[k] is d2[k] else self.npm.select(self, c, d1[k], d2[k])
                    o.attrs = out

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            self.node = s
            self.raise_("AssertionError", "assert")

    def x_Raise(self, s, env):
        if s.exc is None:
            if getattr(self, "_handling", None) is not None:
                raise PyRaise(self._handling)
            self.unsupported("bare raise")
        v = self.eval(s.exc, env)
        self.node = s
        if isinstance(v, ClassObj):
            v = self.call(v, [], {})
        if s.cause is not None:
            self.eval(s.cause, env)
        if not isinstance(v, Inst):
            v = Exc(exc_class("Exception"), (v,))
        v.site = Event("raise", s, self.fn)
        raise PyRaise(v)

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.eval(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        match = any(isinstance(x, ClassObj) and e.exc.cls.issub(x) for x in ts)
                    if match:
                        if h.name:
                            self.bind(env, h.name, e.exc)
                        save = getattr(self, "_handling", None)
                        self._handling = e.exc
                        self.event("caught", exc=e.exc, handler=h)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self._handling = save
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PyRaise, _Return, _Break, _Continue) as ex:
            self.exec_block(s.finalbody, env)
            raise ex
        else:
            self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        self._with(s, list(s.items), env)

    def _with(self, s, items, env):
        if not items:
            return self.exec_block(s.body, env)
        it = items[0]
        cm = self.eval(it.context_expr, env)
        if isinstance(cm, _CtxCall):
            def hook(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
                self._with(s, items[1:], env)
            cm.run(self, hook)
            return
        if isinstance(cm, Inst):
            en = self.getattr(cm, "__enter__")
            v = self.call(en, [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            ex = self.getattr(cm, "__exit__")
            try:
                self._with(s, items[1:], env)
            except PyRaise as e:
                if self.truth(self.call(ex, [e.exc.cls, e.exc, None], {})):
                    return
                raise
            except (_Return, _Break, _Continue):
                self.call(ex, [None, None, None], {})
                raise
            self.call(ex, [None, None, None], {})
            return
        self.event("with", obj=cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, cm, env)
        self._with(s, items[1:], env)

    def x_Break(self, s, env):
        raise _Break()

    def x_Continue(self, s, env):
        raise _Continue()

    # ---------------------------------------------------------- loops
    def x_While(self, s, env):
        # unroll while the condition is decided without looking at unknown data
        self.peeled = 0
        heads = []
        for peeled in range(200):
            self.peeled = peeled
            heads.append(scope_arrays(env))
            n0 = len(self.path.conds)
            save = len(self.path.taken)
            c = self.try_concrete(s.test, env)
            if c is None:
                break
            if not c:
                self.exec_block(s.orelse, env)
                return
            try:
                self.exec_block(s.body, env)
            except _Break:
                self.peeled_exit(s, peeled, heads)
                return
            except _Return:
                self.peeled_exit(s, peeled, heads)
                raise
            except _Continue:
                pass
            if len(self.path.taken) > save and (peeled > 8 or self.endless(s.test)):
                # the exit depends on unknown data: the rest is summarised
                self.peeled = peeled + 1
                break
        else:
            self.unsupported("while loop with too many iterations")
        self.abstract_while(s, env, heads)

    def counter_facts(self, rec, info, nc):
        """integer facts on the counter that hold at the loop head: true on entry and on every back edge"""
        k = rec.count_sym
        facts, banned = info.setdefault("facts", {}), info.setdefault("nofacts", set())

        def ints(conds):
            for cd in conds:
                t = cd.t
                if not hasattr(t, "terms") or t.n or len(t.terms) > 1 or (t.terms and t.terms[0][0] != (0, ())):
                    continue
                f = t.terms[0][1] if t.terms else R.const(0)
                if not R.is_integral(f, tf.INT_SYMBOLS | {k}):
                    continue
                if cd.kind == "gt0":
                    yield R.sub(f, R.ONE) if cd.val else R.neg(f)
                elif cd.kind == "ge0":
                    yield f if cd.val else R.sub(R.neg(f), R.ONE)
                elif cd.kind == "eq0" and cd.val:
                    yield f
                    yield R.neg(f)
        prev = {k: R.sub(R.sym(k), R.ONE)}
        got = [R.subst(f, prev) for f in ints(self.path.conds[nc:]) if k in R.symbols(f)]
        entry = list(ints(self.path.conds[:rec.ncond]))

        def ge0(d, fs):
            if tf.R.nonneg(R.subst(d, tf.int_shift(d)), tf.is_pos_sym):
                return True
            return any(tf.R.nonneg(R.subst(x, tf.int_shift(x)), tf.is_pos_sym) for x in (R.sub(d, f) for f in fs))
        for key, f in list(facts.items()):
            if not ge0(f, got):
                del facts[key]
                banned.add(key)
                raise Restart()
        for f in got:
            key = f.key
            if key in facts or key in banned:
                continue
            if ge0(R.subst(f, {k: R.ONE}), entry):
                if any(ge0(f, [g]) for g in facts.values()):
                    continue
                facts[key] = f
                raise Restart()

    def peeled_exit(self, s, peeled, heads):
        """left in the middle of an iteration that was not summarised"""
        rec = self.loop_rec(s)
        rec.mode, rec.exit, rec.peeled = "zero", "break", peeled + 1
        rec.heads = heads

    @staticmethod
    def endless(test):
        return isinstance(test, ast.Constant) and bool(test.value)

    def try_concrete(self, test, env):
        """truth value if decided without branching, else None (no decision is made)"""
        self.no_branch = getattr(self, "no_branch", 0) + 1
        try:
            v = self.eval(test, env)
            return self.truth(v)
        except _NeedBranch:
            key = ("abs", self._loopkey(test))
            return None
        finally:
            self.no_branch -= 1

    def _loopkey(self, n):
        return (n.lineno, n.col_offset, self.fn.qual)

    def abstract_while(self, s, env, heads=()):
        rec = self.loop_rec(s)
        rec.heads = list(heads)
        rec.peeled = self.peeled
        c0 = self.eval(s.test, env)
        if not self.truth(c0):
            rec.mode = "zero"
            self.exec_block(s.orelse, env)
            return
        info = self.loop_info(rec)
        names = self.havoc(rec, info, s.body, env)
        rec.mode = "while"
        for f in info.get("facts", {}).values():
            t = self.npm.norm_sign(tf.scalar(R.add(f, R.ONE)))
            self.path.conds.append(Cond("gt0", t, True, s, self.fn))
            self.npm.npm._tid[t.id] = t
            self.path.memo[("gt0", t.id)] = True
        nc = len(self.path.conds)
        if not self.truth(self.eval(s.test, env)):
            raise PathEnd("dead")
        try:
            try:
                self.exec_block(s.body, env)
            except _Continue:
                pass
        except _Break:
            self.loop_close(rec, info, names, env)
            rec.exit = "break"
            return
        self.loop_close(rec, info, names, env)
        self.node = s
        if self.truth(self.eval(s.test, env)):
            rec.exit = "back"
            self.counter_facts(rec, info, nc)
            raise PathEnd("back")
        rec.exit = "cond"
        self.exec_block(s.orelse, env)

    def loop_rec(self, s):
        rec = LoopRec(s, self.fn, self.path.nloop)
        self.path.nloop += 1
        self.path.loops.append(rec)
        rec.ncond = len(self.path.conds)
        rec.nev = len(self.path.events)
        return rec

    def loop_info(self, rec):
        # keyed by the loop and by how often it was met on this path
        k = sum(1 for r in self.path.loops[:-1] if r.node is rec.node)
        key = ("loop", rec.node.lineno, rec.node.col_offset, rec.fn.qual, k)
        i = self.path.info.get(key)
        if i is None:
            i = self.path.info[key] = {"heap": set(), "flags": {}, "counter": {}, "inv": set(), "mode": "par",
                                       "dt": {}, "kind": {}, "roots": {}, "peel": 0, "dims": {}}
        return i

    def havoc(self, rec, info, body, env, extra=()):
        """replace everything the body changes by arbitrary values (phi leaves)"""
        reb, aug = assigned_names(body)
        names = {}
        rec.count_sym = "kappa%d" % rec.ordinal
        tf.POS_SYMBOLS.add(rec.count_sym)
        cnt = R.sub(R.sym(rec.count_sym), R.ONE)
        rec.count = cnt
        for n in sorted(reb | aug):
            e = env
            if n in env.nonlocals:
                e = env.parent
                while e is not None and n not in e.vars:
                    e = e.parent
                if e is None:
                    continue
            if n not in e.vars or n in extra:
                if n not in e.vars:
                    e.vars[n] = UNDEF
                    names[n] = (e, UNDEF)
                continue
            v = e.vars[n]
            if isinstance(v, Arr) and not v.py and not v.tr and n not in reb and v.ndim:
                continue                     # in-place update of the same buffer
            names[n] = (e, v)
            if n in info["inv"]:
                continue
            e.vars[n] = self.phi(rec, info, n, v, cnt)
        rec.grow = self.grow_lists(rec, body, env)
        rec.lists = list_state(env)
        self.heap0 = self.heap_snapshot()
        rec.heap_init = dict(self.heap0)
        for key in sorted(info["heap"], key=repr):
            o = self.path.byserial.get(key[1])
            if o is None or o.serial not in self.heap0:
                continue                     # a key of an abandoned attempt
            if key[0] == "arr":
                rec.init[key] = o.t
                t0 = o.t
                a = self.phi(rec, info, key, Arr(o.t, o.dt), cnt)
                ax = info.get("rowin", {}).get(key)
                if ax is not None and rec.label is not None and a.t.dims == t0.dims:
                    # each iteration l only touches row l: row l still has its initial contents
                    dl = self.row_delta(rec, t0, ax)
                    f0, fa = tf.flat(t0), tf.flat(a.t)
                    t = tf.add_T(tf.sub_T(fa, tf.mul_T(fa, dl)), tf.mul_T(f0, dl))
                    a = Arr(t, a.dt)
                    rec.phi[key] = a
                o._t = a.t
                o.ver += 1
            else:
                v = o.attrs.get(key[2], UNDEF)
                rec.init[key] = v
                if v is UNDEF:
                    continue
                o.attrs[key[2]] = self.phi(rec, info, key, v, cnt)
        rec.names = names
        rec.snap = self.heap_snapshot()
        return names

    def grow_lists(self, rec, body, env):
        out = {}
        for st in body:
            for nd in ast.walk(st):
                if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr == "append" \
                        and isinstance(nd.func.value, ast.Name):
                    n, e = nd.func.value.id, env
                    while e is not None and n not in e.vars:
                        e = e.parent
                    if e is None or n in out:
                        continue
                    v = e.vars[n]
                    if isinstance(v, GrowList):
                        v.irregular = True
                    elif type(v) is list and v is not UNDEF:
                        e.vars[n] = GrowList(v, rec)
                        out[n] = e
        return out

    def grown(self, rec, phis):
        """lists to which every iteration appended one element"""
        for n, e in rec.grow.items():
            g = e.vars.get(n)
            if isinstance(g, GrowList) and not g.irregular and len(g.added) == 1 and not g.items \
                    and not any(mentions(a.t, phis) for a in _arrs(g.added[0])):
                e.vars[n] = SymList(rec.n, rec.label, g.added[0])

    def phi(self, rec, info, key, v, cnt):
        """an arbitrary value of the kind of v"""
        name = "phi%d.%s" % (rec.ordinal, key if isinstance(key, str) else key[-1])
        if v is UNDEF:
            return UNDEF
        if key in info["counter"]:
            st = info["counter"][key]
            rec.init[key] = v
            if rec.label is not None:
                idx = Arr(self.npm.iota(rec.n, rec.label), "i", py=True)
            else:
                idx = Arr(tf.scalar(cnt), "i", py=True)
            w = self.binop("Add", v, self.binop("Mult", st, idx))
            rec.phi[key] = w
            return w
        k = info["kind"].get(key)
        if key in info.get("zero", ()):
            like = info["zero"][key]
            v = Arr(tf.sub_T(like.t, like.t), like.dt)
            self.register(v)
        rec.init[key] = v
        if isinstance(v, (list, tuple)) and k is None:
            w = like_seq(v, (self.phi(rec, info, (key, i) if isinstance(key, str) else key + (i,), x, cnt)
                         for i, x in enumerate(v)))
            rec.phi[key] = w
            return w
        if isinstance(v, (bool,)) or v is None or isinstance(v, (str, Func, Native, Inst, Opaque, ClassObj, dict, Bound)):
            if key in info["dt"]:
                # kind changed in the body: peel
                self.unsupported("loop variable %s changes its kind" % (key,))
            rec.phi[key] = v
            return v
        if isinstance(v, (int, Fraction, float)):
            dt = info["dt"].get(key, "i" if isinstance(v, int) else "f")
            fl = info["flags"].setdefault(key, {"real": dt != "c", "pos": v >= 0})
            lf = tf.leaf(name, (), **{k2: x for k2, x in fl.items() if x})
            w = Arr(tf.from_node(lf), dt, py=True)
            w.meta = {"num": True}
            rec.phi[key] = w
            return w
        if isinstance(v, Arr):
            dt = info["dt"].get(key, v.dt)
            t = v.t
            fl = info["flags"].get(key)
            if fl is None:
                fl = {"real": dt != "c" and dt != "?"}
                if t.rank == 2 and t.dims and len(t.dims) == 2 and t.dims[0] == t.dims[1]:
                    fl["herm"] = tf.is_herm(t)
                    fl["psd"] = fl["herm"] and tf.psd(t)
                    fl["inv"] = fl["psd"]
                elif t.rank == 2 and len(t.sizes) == 2 and t.sizes[0] == t.sizes[1] and t.sizes[0] > 1:
                    fl["herm"] = fl["psd"] = False
                if tf.nonneg(t) and t.rank == 0:
                    fl["pos"] = True
                info["flags"][key] = fl
            fl = {k2: x for k2, x in fl.items() if x}
            lf = tf.leaf(name, t.dims, **fl)
            if t.rank == 2 and len(t.dims) == 2 and t.dims[0] == t.dims[1]:
                pass
            w = Arr(tf.from_node(lf, t.sizes), dt, py=v.py)
            w.tr = v.tr
            w.roots = v.roots | info["roots"].get(key, frozenset())
            self.register(w)
            rec.phi[key] = w
            return w
        if not isinstance(key, str):
            self.unsupported("loop variable %s of kind %s" % (key, type(v).__name__))
        # carried from one iteration to the next only if it is read before it is assigned
        rec.phi[key] = Unread(key, type(v).__name__)
        return rec.phi[key]

    def loop_close(self, rec, info, names, env):
        """compare the state after the body with the loop head; restart if the summary was too narrow"""
        if not all(same_contents(v, old) for v, old in rec.lists):
            self.unsupported("a list or dictionary that changes in a loop")
        for n, (e, init) in names.items():
            new = e.vars.get(n, UNDEF)
            if init is UNDEF:
                continue
            rec.next[n] = new
            if n in info["inv"]:
                if not same_value(new, init):
                    info["inv"].discard(n)
                    info["never_inv"] = info.get("never_inv", set()) | {n}
                    raise Restart()
                continue
            self.close_one(rec, info, n, rec.phi[n], init, new)
        # heap
        for o in list(self.path.objs):
            if o.serial not in rec.snap:
                continue
            if isinstance(o, Arr):
                key = ("arr", o.serial)
                if o.parent is None and o._t is not rec.snap[o.serial]:
                    if key not in info["heap"]:
                        info["heap"].add(key)
                        raise Restart()
                if key in rec.phi:
                    a = Arr(o.t, o.dt)
                    rec.next[key] = a
                    self.close_one(rec, info, key, rec.phi[key], Arr(rec.init[key], o.dt), a)
            elif isinstance(o, Inst):
                old = rec.snap[o.serial]
                for k in set(old) | set(o.attrs):
                    key = ("attr", o.serial, k)
                    nv = o.attrs.get(k, UNDEF)
                    if not (k in old and nv is old[k]) and not same_value(nv, old.get(k, UNDEF)):
                        if key not in info["heap"]:
                            info["heap"].add(key)
                            raise Restart()
                    if key in rec.init:
                        rec.next[key] = nv
                        if rec.init.get(key, UNDEF) is not UNDEF:
                            self.close_one(rec, info, key, rec.phi.get(key), rec.init[key], nv)

    def close_one(self, rec, info, key, phi, init, new):
        if isinstance(phi, Unread):
            return
        if isinstance(phi, (list, tuple)) and isinstance(new, type(phi)):
            if len(phi) != len(new):
                self.unsupported("loop variable %s changes its length" % (key,))
            for i, (p, q) in enumerate(zip(phi, new)):
                self.close_one(rec, info, (key, i) if isinstance(key, str) else key + (i,), p, init[i], q)
            return
        if same_value(phi, new):
            if isinstance(key, str) and key not in info.get("never_inv", ()) and isinstance(phi, Arr) \
                    and key not in info["counter"]:
                info["inv"].add(key)
                raise Restart()
            return
        if isinstance(phi, Arr) and (phi.py or phi.ndim == 0):
            if key in info["counter"]:
                want = self.binop("Add", phi, info["counter"][key])
                if not same_value(want, new):
                    del info["counter"][key]
                    info.setdefault("nocounter", set()).add(key)
                    raise Restart()
                return
            if isinstance(new, (int, Fraction, float)) and not isinstance(new, bool):
                if isinstance(new, float):
                    return
                new = Arr(tf.scalar(R.const(new)), "i" if isinstance(new, int) else "f", py=True)
            if isinstance(new, Arr) and new.ndim == 0:
                d = tf.sub_T(new.t, phi.t)
                c = tf._is_scalar_const(d)
                if c is not None and c.const() is not None and c.const() != 0 and key not in info.get("nocounter", ()):
                    k = c.const()
                    info["counter"][key] = int(k) if k.denominator == 1 else k
                    raise Restart()
        if isinstance(phi, Arr) and isinstance(new, Arr):
            if phi.t.dims != new.t.dims or phi.t.sizes != new.t.sizes:
                if phi.t.shape != new.t.shape:
                    if phi.ndim == 0 and new.ndim and is_zero(init) and key not in info.setdefault("zero", {}):
                        # a sum that starts at the number zero
                        info["zero"][key] = new
                        info["flags"].pop(key, None)
                        info["nocounter"] = info.get("nocounter", set()) | {key}
                        raise Restart()
                    if phi.ndim != new.ndim:
                        return self.need_peel(rec, info, key)
                    return self.need_peel(rec, info, key)
            if rank_dt(new.dt) > rank_dt(phi.dt):
                info["dt"][key] = new.dt
                info["flags"].pop(key, None)
                fl = {"real": new.dt != "c"}
                info["flags"][key] = fl
                if new.ndim == 2 and len(new.t.dims) == 2 and new.t.dims[0] == new.t.dims[1] and \
                        isinstance(init, Arr) and tf.is_herm(init.t):
                    fl["herm"] = True
                    fl["psd"] = tf.psd(init.t)
                    fl["inv"] = fl["psd"]
                raise Restart()
            fl = info["flags"].get(key, {})
            bad = False
            if fl.get("herm") and not tf.is_herm(new.t):
                fl["herm"] = fl["psd"] = fl["inv"] = False
                bad = True
            if fl.get("psd") and not tf.psd(new.t):
                fl["psd"] = fl["inv"] = False
                rec_lost = True
                bad = True
            if fl.get("pos") and not tf.nonneg(new.t):
                fl["pos"] = False
                bad = True
            if fl.get("real") and new.dt == "c":
                fl["real"] = False
                bad = True
            if not new.roots <= (phi.roots | {("arr", phi.serial)}):
                info["roots"][key] = info["roots"].get(key, frozenset()) | new.roots
                if not new.roots <= phi.roots:
                    bad = True
            if bad:
                raise Restart()
            return
        if isinstance(phi, Arr) and isinstance(new, float):
            return
        if isinstance(new, Arr) or isinstance(phi, Arr):
            return self.need_peel(rec, info, key)
        if type(new) is type(phi) and isinstance(new, (bool, str)) or isinstance(new, bool) and isinstance(phi, bool):
            # flags: explore both values through an unknown boolean
            return self.need_peel(rec, info, key)
        if isinstance(phi, (Inst, Opaque)) and isinstance(new, (Inst, Opaque)):
            return
        return self.need_peel(rec, info, key)

    def need_peel(self, rec, info, key):
        if info.get("peel", 0) >= 2:
            self.unsupported("loop variable %s does not have a stable kind" % (key,))
        k = ("peel", rec.node.lineno, rec.node.col_offset, rec.fn.qual)
        self.unsupported("loop variable %s changes kind" % (key,))

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        self.node = s
        items = self.npm.iter_maybe(self, it)
        if items is not None:
            for x in items:
                self.assign(s.target, x, env)
                try:
                    self.exec_block(s.body, env)
                except _Break:
                    return
                except _Continue:
                    continue
            self.exec_block(s.orelse, env)
            return
        n = self.npm.sym_len(self, it)
        rec = self.loop_rec(s)
        rec.n = n
        info = self.loop_info(rec)
        if not self.npm.positive_dim(self, n):
            rec.mode = "zero"
            self.exec_block(s.orelse, env)
            return
        rec.label = ("o", "i%d" % rec.ordinal)
        rec.mode = info["mode"]
        elem = self.npm.sym_elem(self, it, rec.label)
        par = info["mode"] == "par"
        tnames, _ = assigned_names([ast.Assign([s.target], ast.Constant(0))])
        names = self.havoc(rec, info, s.body, env, extra=tnames)
        self.assign(s.target, elem, env)
        if par:
            self.open_par[rec.label] = rec
        ntaken = len(self.path.taken)
        nret = False
        try:
            try:
                self.exec_block(s.body, env)
            except _Continue:
                pass
        except _Break:
            if par:
                self.open_par.pop(rec.label, None)
                info["mode"] = "seq"
                raise Restart()
            self.loop_close(rec, info, names, env)
            rec.exit = "break"
            return
        except _Return:
            if par:
                self.open_par.pop(rec.label, None)
                info["mode"] = "seq"
                raise Restart()
            raise
        finally:
            self.open_par.pop(rec.label, None)
        self.node = s
        self.loop_close(rec, info, names, env)
        if par:
            if not self.par_exit(rec, info, names, env, tnames):
                info["mode"] = "seq"
                raise Restart()
            rec.exit = "par"
            self.exec_block(s.orelse, env)
            return
        # sequential: another iteration follows, or this was the last one
        if self.path.choose():
            rec.exit = "last"
        else:
            rec.exit = "back"
            raise PathEnd("back")
        self.relabel_state(rec, names, env, tnames)
        self.exec_block(s.orelse, env)

    def relabel_state(self, rec, names, env, tnames):
        """after the last iteration the loop index is n-1"""
        last = ("c", R.sub(rec.n, R.ONE))

        def fix(v):
            if isinstance(v, Arr) and v.parent is None:
                t = self.npm.relabel(v.t, {rec.label: last})
                if t is not v.t:
                    w = Arr(t, v.dt, v.roots, v.py)
                    w.tr = v.tr
                    self.register(w)
                    return w
                return v
            if isinstance(v, (list, tuple)):
                return like_seq(v, (fix(x) for x in v))
            return v
        for n, (e, init) in names.items():
            v = e.vars.get(n, UNDEF)
            if v is not UNDEF:
                e.vars[n] = fix(v)
        for n in tnames:
            if n in env.vars and env.vars[n] is not UNDEF:
                env.vars[n] = fix(env.vars[n])
        for o in self.path.objs:
            if o.serial in rec.snap:
                if isinstance(o, Arr) and o.parent is None:
                    t = self.npm.relabel(o._t, {rec.label: last})
                    if t is not o._t:
                        o._t = t
                        o.ver += 1
                elif isinstance(o, Inst):
                    for k, v in list(o.attrs.items()):
                        o.attrs[k] = fix(v)

    def par_exit(self, rec, info, names, env, tnames):
        phis = set()
        for v in rec.phi.values():
            for a in _arrs(v):
                for (ph, fs), c in a.t.terms:
                    for f in fs:
                        if f[0].kind == "leaf" and f[0].args[0].startswith("phi%d." % rec.ordinal):
                            phis.add(f[0])
        out = {}
        for key, new in rec.next.items():
            if isinstance(key, str) and key in info["inv"]:
                continue
            phi = rec.phi.get(key)
            init = rec.init.get(key)
            if key in info["counter"]:
                out[key] = self.binop("Add", init, self.binop("Mult", info["counter"][key],
                                                              Arr(tf.scalar(rec.n), "i", py=True)))
                continue
            if same_value(phi, new):
                out[key] = init
                continue
            r = self.par_value(rec, phi, init, new, phis)
            if r is None and isinstance(key, tuple) and key[0] == "arr" and isinstance(phi, Arr) and isinstance(new, Arr):
                tried = info.setdefault("rowin", {})
                axes = [ax for ax in range(phi.t.n) if phi.t.dims[ax] == rec.n and ax < phi.t.n]
                nxt = [ax for ax in axes if key not in tried or (tried[key] is not None and ax > tried[key])]
                if nxt:
                    tried[key] = nxt[0]
                    raise Restart()
                if tried.get(key) is not None:
                    tried[key] = None
                    info["mode"] = "seq"
                    raise Restart()
            if r is None:
                return False
            out[key] = r
        self.grown(rec, phis)
        # values of the last iteration for names assigned only in the body
        for n, (e, init) in names.items():
            if init is UNDEF:
                v = e.vars.get(n, UNDEF)
                e.vars[n] = self.par_last(rec, v, phis)
        for n in tnames:
            if n in env.vars:
                env.vars[n] = self.par_last(rec, env.vars[n], phis)
        for key, v in out.items():
            if isinstance(key, str):
                names[key][0].vars[key] = v
            elif key[0] == "arr":
                o = self.path.byserial[key[1]]
                o._t = v.t if isinstance(v, Arr) else v
                o.ver += 1
            elif key[0] == "attr":
                self.path.byserial[key[1]].attrs[key[2]] = v
            elif isinstance(key, tuple) and isinstance(key[0], str):
                pass
        return True

    def par_last(self, rec, v, phis):
        if v is UNDEF or not isinstance(v, (Arr, list, tuple)):
            return v
        if isinstance(v, (list, tuple)):
            return like_seq(v, (self.par_last(rec, x, phis) for x in v))
        if mentions(v.t, phis):
            return UNDEF
        t = self.npm.relabel(v.t, {rec.label: ("c", R.sub(rec.n, R.ONE))})
        if t is v.t:
            return v
        w = Arr(t, v.dt, v.roots, v.py)
        self.register(w)
        return w

    def row_delta(self, rec, t, ax):
        return tf.build((1,) * t.n, t.dims, [(R.ONE, 0, [(tf.delta_node(rec.n), False, R.ONE, (ax, rec.label))], {})])

    def par_value(self, rec, phi, init, new, phis):
        """final value of an accumulator / a row-wise filled array"""
        if isinstance(phi, (list, tuple)):
            r = [self.par_value(rec, p, i, n, phis) for p, i, n in zip(phi, init, new)]
            return None if any(x is None for x in r) else type(phi)(r)
        if not isinstance(phi, Arr):
            return None
        if isinstance(new, (int, Fraction)) and not isinstance(new, bool):
            new = self.npm.to_arr(self, new)
        if not isinstance(new, Arr):
            return None
        it = self.npm.to_arr(self, init)
        if not mentions(new.t, phis):
            # overwritten in each iteration
            w = self.par_last(rec, new, phis)
            return w if w is not UNDEF else None
        if new.t.dims != phi.t.dims:
            return None
        g = tf.sub_T(new.t, phi.t)
        if not mentions(g, phis):
            s = self.npm.sum_label(g, rec.label, rec.n)
            w = Arr(tf.add_T(self.npm.fit_like(it.t, s), s), self.npm.promote(it.dt, new.dt), it.roots, it.py)
            self.register(w)
            return w
        # product accumulators
        # row-wise stores
        t = new.t
        for ax in range(t.n):
            if t.dims[ax] != rec.n:
                continue
            row = self.npm.relabel(t, {ax: rec.label})
            if mentions(row, phis):
                continue
            dl = self.row_delta(rec, t, ax)
            ft, fp, fr = tf.flat(t), tf.flat(phi.t), tf.flat(row)
            want = tf.add_T(tf.sub_T(fp, tf.mul_T(fp, dl)), tf.mul_T(fr, dl))
            if want is ft:
                lifted = self.npm.relabel(row, {rec.label: ax})
                w = Arr(lifted, new.dt, it.roots, it.py)
                self.register(w)
                return w
        return None

    # ---------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.node = e
            self.unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if isinstance(v, complex):
            if v.real == 0:
                return Arr(tf.scale_T(tf.imag_unit(), R.const(Fraction(repr(v.imag)))), "c", py=True)
        return v

    def e_Name(self, e, env):
        self.node = e
        return self.lookup(e.id, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.bind(env, e.target.id, v)
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        r = self.elts(e.elts, env)
        return r

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                if isinstance(v, SymList):
                    if len(es) == 1:
                        return v
                    out.append(_Star(v))
                else:
                    out.extend(self.npm.iter_concrete(self, v))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.npm.hashable(self, self.eval(k, env))] = self.eval(v, env)
        return d

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        self.node = e
        return self.getattr(o, self.mangle(e.attr))

    def mangle(self, a):
        f = self.fn
        if a.startswith("__") and not a.endswith("__") and f is not None and getattr(f, "cls", None) is not None:
            return "_" + f.cls.name.lstrip("_") + a
        return a

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        k = self.eval(e.slice, env)
        self.node = e
        return self.getitem(o, k)

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.node = e
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        self.node = e
        op = type(e.op).__name__
        if op == "Not":
            mt = self.merge_cond(v)
            if mt is not None:
                return self.npm.logical_not(self, v)
            if getattr(self, "no_branch", 0) == 0 and isinstance(v, Arr) and v.ndim == 0 and v.dt == "b":
                return self.npm.logical_not(self, v)
            return not self.truth(v)
        return self.npm.unary(self, op, v)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            self.node = e
            if isinstance(v, Arr) and v.dt == "b" and self.merge_cond(v) is not None:
                w = self.eval(e.values[i + 1] if i + 2 == len(e.values) else
                              ast.copy_location(ast.BoolOp(e.op, e.values[i + 1:]), e), env)
                return self.npm.logical(self, "and" if isand else "or", v, w)
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Arr) else False
            if not isand and t:
                return v if not (isinstance(v, Arr) and v.dt == "b") else True
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            self.node = e
            c = self.npm.compare(self, type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                if not self.truth(res):
                    return False
                res = c
            left = right
        return res

    def minmax_test(self, test, body, orelse, env):
        """the value of a choice between the two sides of the comparison that decides it, when it is undecided"""
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1
                and isinstance(test.ops[0], (ast.Gt, ast.GtE, ast.Lt, ast.LtE))):
            return None
        sides = [ast.unparse(x) for x in (test.left, test.comparators[0])]
        arms = [ast.unparse(x) for x in (body, orelse)]
        if sorted(sides) != sorted(arms) or sides[0] == sides[1] \
                or any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(test)):
            return None
        a, b = self.eval(test.left, env), self.eval(test.comparators[0], env)
        if not all(isinstance(x, Arr) and x.ndim == 0 and x.dt in ("f", "i") or isinstance(x, (int, Fraction))
                   and not isinstance(x, bool) for x in (a, b)):
            return None
        c = self.npm.compare(self, type(test.ops[0]).__name__, a, b)
        if not isinstance(c, Arr) or self.npm.decide(self, c) is not None:
            return None
        big = isinstance(test.ops[0], (ast.Gt, ast.GtE)) == (arms[0] == sides[0])
        return self.npm.minmax2(self, "max" if big else "min", a, b)

    def e_IfExp(self, e, env):
        m = self.minmax_test(e.test, e.body, e.orelse, env)
        if m is not None:
            return m
        c = self.eval(e.test, env)
        self.node = e
        mt = self.merge_cond(c)
        if mt is not None:
            return self.npm.select(self, c, self.eval(e.body, env), self.eval(e.orelse, env))
        if self.truth(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_Lambda(self, e, env):
        f = Func(e, env, self.fn.module)
        f.cls = getattr(self.fn, "cls", None)
        f.qual = (self.fn.qual + ".<lambda>") if not isinstance(self.fn, _ModFn) else "<lambda>"
        f.defaults = [self.eval(d, env) for d in e.args.defaults]
        f.kwdefaults = [None if d is None else self.eval(d, env) for d in e.args.kw_defaults]
        return f

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, env)
                out.append(self.npm.tostr(self, x))
        return "".join(out)

    def e_FormattedValue(self, e, env):
        return self.npm.tostr(self, self.eval(e.value, env))

    def e_Starred(self, e, env):
        return _Star(self.eval(e.value, env))

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        if self.yield_hook is None:
            self.unsupported("generator")
        h = self.yield_hook
        self.yield_hook = None
        save = self.stack
        try:
            h(v)
        finally:
            self.stack = save
        return None

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda en: self.eval(e.elt, en))

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, lambda en: self.eval(e.elt, en))

    def e_SetComp(self, e, env):
        r = self.comp(e, env, lambda en: self.eval(e.elt, en))
        return set(r)

    def e_DictComp(self, e, env):
        r = self.comp(e, env, lambda en: (self.npm.hashable(self, self.eval(e.key, en)), self.eval(e.value, en)))
        if isinstance(r, SymList):
            self.unsupported("dict comprehension over a symbolic range")
        return dict(r)

    def comp(self, e, env, f):
        out = []
        en = Env(env)

        def go(k):
            if k == len(e.generators):
                out.append(f(en))
                return None
            g = e.generators[k]
            it = self.eval(g.iter, en)
            items = self.npm.iter_maybe(self, it)
            if items is None:
                if len(e.generators) > 1 or g.ifs:
                    self.unsupported("nested comprehension over a symbolic range")
                self.node = e
                n = self.npm.sym_len(self, it)
                label = ("o", "c%d" % self.path.nloop)
                self.path.nloop += 1
                elem = self.npm.sym_elem(self, it, label)
                self.assign(g.target, elem, en)
                rec = LoopRec(e, self.fn, self.path.nloop - 1)
                rec.mode, rec.n, rec.label = "comp", n, label
                self.path.loops.append(rec)
                snap = self.heap_snapshot()
                self.open_par[label] = rec
                try:
                    v = f(en)
                finally:
                    self.open_par.pop(label, None)
                snap2 = self.heap_snapshot()
                for k2, v2 in snap.items():
                    if not (snap2[k2] is v2 or (isinstance(v2, dict) and v2.keys() == snap2[k2].keys() and
                                                all(snap2[k2][q] is v2[q] for q in v2))):
                        self.unsupported("comprehension body with side effects on existing objects")
                return SymList(n, label, v, frozenset(snap))
            for x in items:
                self.assign(g.target, x, en)
                if all(self.truth(self.eval(c, en)) for c in g.ifs):
                    r = go(k + 1)
                    if r is not None:
                        return r
            return None
        r = go(0)
        return out if r is None else r

    # ---------------------------------------------------------- calls
    def e_Call(self, e, env):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            args = [self.eval(a, env) for a in e.args]
            if args:
                return _Super(args[0], args[1])
            f = self.fn
            en = env
            while en is not None and not (en.func is f):
                en = en.parent
            slf = next(iter((en or env).vars.values()))
            return _Super(f.cls, slf)
        f = self.eval(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                if isinstance(v, SymList):
                    args.append(_Star(v))
                else:
                    args.extend(self.npm.iter_concrete(self, v))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, dict):
                    self.unsupported("** of a non-dict")
                kw.update(d)
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.node = e
        r = self.call(f, args, kw)
        self.node = e
        return r

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, ClassObj):
            return self.instantiate(f, args, kw)
        if isinstance(f, Inst):
            m, c = f.cls.lookup("__call__")
            if m is not None:
                return self.call(Bound(m, f), args, kw)
            if getattr(f, "call", None):
                return f.call(self, args, kw)
        if isinstance(f, Opaque):
            return self.npm.call_opaque(self, f, args, kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if f is None or isinstance(f, (int, str, Fraction, Arr, tuple, list, dict)):
            self.raise_("TypeError", "object is not callable: %r" % (f,))
        self.unsupported("call of %r" % (f,))

    def instantiate(self, c, args, kw):
        if is_exc_class(c):
            init, k = c.lookup("__init__")
            e = Exc(c, args)
            if init is not None:
                self.call(Bound(init, e), args, kw)
            return e
        if any(isinstance(b, Opaque) and b.attrs.get("type") == "list" for b in c.mro()):
            if kw or len(args) > 1:
                self.raise_("TypeError", "%s() takes at most one argument" % c.name)
            o = ListInst(self.npm.BUILTIN_LIST(self, *args) if args else [], c)
            init, k = c.lookup("__init__")
            if init is not None:
                self.unsupported("__init__ of a subclass of list")
            return o
        o = Inst(c)
        self.register(o)
        init, k = c.lookup("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        else:
            ext = [b for b in c.mro() if isinstance(b, Opaque)]
            if ext:
                self.event("ext_init", obj=o, base=ext[0], args=args, kw=kw)
            elif args or kw:
                self.raise_("TypeError", "%s() takes no arguments" % c.name)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        kwonly = [x.arg for x in a.kwonlyargs]
        vals = {}
        args = list(args)
        kw = dict(kw)
        if any(isinstance(x, _Star) for x in args):
            self.unsupported("call with a symbolic number of arguments")
        if len(args) > len(pos):
            if a.vararg is not None:
                vals[a.vararg.arg] = tuple(args[len(pos):])
            elif f.extra_pos and len(args) <= len(pos) + len(kwonly):
                for n, v in zip(kwonly, args[len(pos):]):
                    vals[n] = v
            else:
                self.raise_("TypeError", "%s() takes %d positional arguments but %d were given" %
                            (f.name, len(pos), len(args)))
            args = args[:len(pos)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vals[n] = v
        extra = {}
        for k, v in kw.items():
            if (k in pos[npos:] or k in kwonly):
                if k in vals:
                    self.raise_("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.raise_("TypeError", "%s() missing required argument '%s'" % (f.name, n))
                vals[n] = f.defaults[j]
        for n, d, dn in zip(kwonly, f.kwdefaults, a.kw_defaults):
            if n not in vals:
                if dn is None:
                    self.raise_("TypeError", "%s() missing required keyword argument '%s'" % (f.name, n))
                vals[n] = d
        # keep the parameter order (super() takes the first one)
        order = pos + kwonly
        return {n: vals[n] for n in order} | {n: v for n, v in vals.items() if n not in order}

    def call_func(self, f, args, kw):
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        if f.ctxmgr:
            return _CtxCall(f, args, kw)
        hook = self.npm.HOOKS.get((f.module.name, f.qual)) if self.npm.HOOKS else None
        vals = self.bind_args(f, args, kw)
        self.event("call", func=f, args=vals, depth=len(self.stack))
        if hook is not None:
            return hook(self, f, vals)
        env = Env(f.env)
        env.vars = vals
        env.func = f
        save = self.node
        self.stack.append(f)
        self.prog.visited.add((f.module.file, f.qual))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if is_generator(f.node):
                if self.yield_hook is None:
                    self.unsupported("generator function %s" % f.qual)
            return self.run_body(f.node.body, env)
        finally:
            self.stack.pop()
            self.node = save

    def run_body(self, body, env):
        for i, s in enumerate(body):
            try:
                self.exec(s, env)
            except _Return as r:
                return r.v
            except _MergedReturn as m:
                # one branch returned under a per-element condition: run the rest on the other branch
                vals, heap = (m.v2, m.h2) if m.first else (m.v1, m.h1)
                for n, v in vals.items():
                    if v is UNDEF:
                        env.vars.pop(n, None)
                    else:
                        env.vars[n] = v
                self.heap_restore(heap)
                rest = self.run_body(body[i + 1:], env)
                h2 = self.heap_snapshot()
                a, b = (m.ret.v, rest) if m.first else (rest, m.ret.v)
                ha, hb = (m.h1, h2) if m.first else (h2, m.h2)
                self.heap_merge(m.c, ha, hb)
                return self.npm.select(self, m.c, a, b)
        return None

    # ---------------------------------------------------------- attributes
    def getattr(self, o, name, default=UNDEF):
        v = self.getattr_(o, name)
        if v is UNDEF:
            if default is not UNDEF:
                return default
            self.raise_("AttributeError", "%s has no attribute %s" % (self.npm.typename(o), name))
        return v

    def getattr_(self, o, name):
        if isinstance(o, Inst):
            cv, cc = o.cls.lookup(name)
            if isinstance(cv, Prop):
                return self.call(Bound(cv.fget, o), [], {})
            if name in o.attrs:
                v = o.attrs[name]
                self.event("getattr", obj=o, attr=name)
                return v
            if cv is not None:
                if isinstance(cv, (Func, Native)) or (isinstance(cv, Opaque) and False):
                    return Bound(cv, o)
                if isinstance(cv, StaticM):
                    return cv.f
                if isinstance(cv, ClassM):
                    return Bound(cv.f, o.cls)
                return cv
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if getattr(o, "getattr_hook", None):
                v = o.getattr_hook(self, name)
                if v is not UNDEF:
                    return v
            ext = [b for b in o.cls.mro() if isinstance(b, Opaque)]
            if ext:
                self.event("getattr_missing", obj=o, attr=name)
                return self.npm.opaque_method(self, o, ext[0], name)
            g, gc = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(Bound(g, o), [name], {})
            self.event("getattr_missing", obj=o, attr=name)
            return UNDEF
        if isinstance(o, ListInst):
            cv, cc = o.cls.lookup(name)
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(cc, ClassObj):
                if isinstance(cv, Prop):
                    return self.call(Bound(cv.fget, o), [], {})
                if isinstance(cv, StaticM):
                    return cv.f
                if isinstance(cv, ClassM):
                    return Bound(cv.f, o.cls)
                return Bound(cv, o) if isinstance(cv, (Func, Native)) else cv
            if name == "__class__":
                return o.cls
            return self.npm.value_attr(self, o, name)
        if isinstance(o, _Super):
            cls = o.obj.cls if isinstance(o.obj, Inst) else o.obj
            cv, cc = cls.lookup(name, after=o.cls)
            if cv is None:
                ext = [b for b in cls.mro() if isinstance(b, Opaque)]
                if ext:
                    return self.npm.opaque_super(self, o, ext[0], name)
                if name == "__init__":
                    return Native("object.__init__", lambda it, a, k: None)
                return UNDEF
            if isinstance(cv, Prop):
                return self.call(Bound(cv.fget, o.obj), [], {})
            if isinstance(cv, (Func, Native)):
                return Bound(cv, o.obj)
            if isinstance(cv, StaticM):
                return cv.f
            return cv
        if isinstance(o, ClassObj):
            cv, cc = o.lookup(name)
            if cv is None:
                if name == "__name__":
                    return o.name
                if name == "__mro__":
                    return tuple(o.mro())
                ext = [b for b in o.mro() if isinstance(b, Opaque)]
                if ext:
                    return self.npm.opaque_method(self, o, ext[0], name)
                return UNDEF
            if isinstance(cv, StaticM):
                return cv.f
            if isinstance(cv, ClassM):
                return Bound(cv.f, o)
            return cv
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            if hasattr(o, "src"):
                if self.prog.find(o.name + "." + name):
                    return self.module(o.name + "." + name)
                return UNDEF
            return self.npm.module_attr(self, o, name)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return ""
            return UNDEF
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self.getattr_(o.func, name)
        return self.npm.value_attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            cv, cc = o.cls.lookup(name)
            if isinstance(cv, Prop):
                if cv.fset is None:
                    self.raise_("AttributeError", "can't set attribute %s" % name)
                self.call(Bound(cv.fset, o), [v], {})
                return
            self.register(o)
            self.event("setattr", obj=o, attr=name, value=v, old=o.attrs.get(name, UNDEF))
            o.attrs[name] = v
            return
        if isinstance(o, (Func, ListInst)):
            o.attrs[name] = v
            return
        if isinstance(o, Opaque):
            self.event("setattr_ext", obj=o, attr=name, value=v)
            o.attrs[name] = v
            return
        if isinstance(o, Module):
            self.event("globalwrite", name=name, module=o.name)
            o.ns[name] = v
            return
        if isinstance(o, ClassObj):
            self.event("classwrite", obj=o, attr=name)
            o.ns[name] = v
            return
        if isinstance(o, Arr):
            return self.npm.set_arr_attr(self, o, name, v)
        self.unsupported("setattr on %s" % type(o).__name__)

    # ---------------------------------------------------------- delegated
    def binop(self, op, a, b):
        return self.npm.binop(self, op, a, b)

    def getitem(self, o, k):
        return self.npm.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.npm.setitem(self, o, k, v)

    def truth(self, v):
        if v is True or v is False or v is None:
            return bool(v)
        if isinstance(v, (int, str, list, tuple, dict, set)):
            return bool(v)
        if isinstance(v, (Fraction, float)):
            return v != 0
        if isinstance(v, Arr):
            return self.npm.truth_arr(self, v)
        if isinstance(v, Inst):
            m, c = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            m, c = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, SymList):
            return self.npm.positive_dim(self, v.n)
        if isinstance(v, Opaque):
            return self.branch_opaque(v)
        return True

    def branch_opaque(self, v):
        if "truth" in v.attrs:
            return v.attrs["truth"]
        if getattr(self, "no_branch", 0):
            raise _NeedBranch()
        k = ("opaque", v.name)
        m = self.path.memo.get(k)
        if m is None:
            m = self.path.memo[k] = self.path.choose()
            self.path.conds.append(Cond("opaque", v.name, m, self.node, self.fn))
        return m

    def branch(self, kind, t):
        """truth of the atomic condition kind(t) on this path"""
        k = (kind, t.id)
        m = self.path.memo.get(k)
        if m is None:
            if getattr(self, "no_branch", 0):
                raise _NeedBranch()
            m = self.path.memo[k] = self.path.choose()
            self.path.conds.append(Cond(kind, t, m, self.node, self.fn))
        return m

    # ---------------------------------------------------------- entry points
    def get(self, modname, qual):
        m = self.module(modname)
        v = m
        for p in qual.split("."):
            v = self.getattr_(v, p)
            if v is UNDEF or v is None:
                raise Unsupported("anchor %s.%s not found" % (modname, qual))
        return v


class _ModFn:
    """pseudo function standing for module level code"""
    def __init__(self, module):
        self.module = module
        self.qual = "<module>"
        self.cls = None


class _NeedBranch(Exception):
    pass


class _Star:
    def __init__(self, v):
        self.v = v


class _Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class _MergedReturn(Exception):
    def __init__(self, c, ret, first, v1, v2, h1, h2, before, heap0):
        self.c, self.ret, self.first = c, ret, first
        self.v1, self.v2, self.h1, self.h2 = v1, v2, h1, h2


class _CtxCall:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw

    def run(self, it, hook):
        f = self.f
        vals = it.bind_args(f, self.args, self.kw)
        env = Env(f.env)
        env.vars = vals
        env.func = f
        caller = list(it.stack)
        ctrl = []

        def h(v):
            # the with-body runs in the caller's frame
            save = it.stack
            it.stack = caller
            try:
                hook(v)
            except (_Return, _Break, _Continue) as ex:
                ctrl.append(ex)
            finally:
                it.stack = save
        save_hook = it.yield_hook
        it.yield_hook = h
        it.stack.append(f)
        try:
            it.run_body(f.node.body, env)
        finally:
            it.stack.pop()
            it.yield_hook = save_hook
        if ctrl:
            raise ctrl[0]


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.t is b.t
    if isinstance(a, Arr) or isinstance(b, Arr):
        x, y = (a, b) if isinstance(a, Arr) else (b, a)
        if isinstance(y, (int, Fraction)) and not isinstance(y, bool):
            return x.ndim == 0 and tf._is_scalar_const(x.t) is not None and tf._is_scalar_const(x.t) == R.const(y)
        return False
    if isinstance(a, (int, Fraction, float, str, bool)) and isinstance(b, (int, Fraction, float, str, bool)):
        return a == b
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, DT) and isinstance(b, DT):
        return a == b
    return False


def _arrs(v):
    if isinstance(v, Arr):
        yield v
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from _arrs(x)


_ment = {}


def list_state(env):
    """the lists and dictionaries in scope with their contents"""
    out = []
    e = env
    while e is not None:
        if e.func is not None and not isinstance(e.func, _ModFn):
            for v in e.vars.values():
                if type(v) is list or type(v) is dict:
                    out.append((v, contents(v)))
        e = e.parent
    return out


def contents(v):
    return [(k, x) for k, x in v.items()] if type(v) is dict else [(None, x) for x in v]


def same_contents(v, old):
    new = contents(v)
    return len(new) == len(old) and all(k1 is k2 or k1 == k2 for (k1, _), (k2, _) in zip(new, old)) and \
        all(x is y for (_, x), (_, y) in zip(new, old))


def mentions(t, nodes):
    """t depends (deeply) on one of the nodes"""
    if not nodes:
        return False
    ids = frozenset(n.id for n in nodes)
    k = (t.id, ids)
    r = _ment.get(k)
    if r is None:
        r = _ment[k] = any(n.id in ids for n in tf.walk_nodes(t))
    return r


def rank_dt(d):
    return {"b": 0, "i": 1, "f": 2, "?": 2, "c": 3}[d]
