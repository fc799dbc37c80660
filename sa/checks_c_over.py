"""E07: overridden methods against every call made to them by the installed base classes."""
import ast
import os
import interp
import tf
from interp import Program
from chk import Report

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


# ------------------------------------------------------------------ classes of source files
class Src:
    def __init__(self, prog):
        self.prog, self.names = prog, {}

    def table(self, mod):
        """top level names of a module: ('class', node) | ('mod', name) | ('from', module, name) | ('def', node)"""
        t = self.names.get(mod)
        if t is None:
            t = self.names[mod] = {}
            s = self.prog.src(mod)
            pk = mod if os.path.basename(str(s.file)) == "__init__.py" else mod.rpartition(".")[0]

            def scan(body):
                for nd in body:
                    if isinstance(nd, ast.ClassDef):
                        t[nd.name] = ("class", mod, nd)
                    elif isinstance(nd, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        t[nd.name] = ("def", mod, nd)
                    elif isinstance(nd, ast.Import):
                        for a in nd.names:
                            t[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
                    elif isinstance(nd, ast.ImportFrom):
                        b = nd.module or ""
                        if nd.level:
                            base = pk.split(".")
                            base = base[:len(base) - (nd.level - 1)]
                            b = ".".join(base + ([nd.module] if nd.module else []))
                        for a in nd.names:
                            t[a.asname or a.name] = ("from", b, a.name)
                    elif isinstance(nd, (ast.If, ast.Try)):
                        scan(nd.body)
                        scan(nd.orelse)
                        for h in getattr(nd, "handlers", ()):
                            scan(h.body)
            scan(s.tree.body)
        return t

    def resolve(self, mod, expr, depth=0):
        """expression -> ('class', module, node) or None"""
        if depth > 12:
            return None
        if isinstance(expr, ast.Name):
            return self.lookup(mod, expr.id, depth)
        if isinstance(expr, ast.Attribute):
            p = dotted(expr)
            if p is None:
                return None
            r = self.table(mod).get(p[0])
            if r and r[0] in ("mod", "from"):
                m = r[1] if r[0] == "mod" else r[1] + "." + r[2]
                for q in p[1:-1]:
                    m += "." + q
                try:
                    return self.lookup(m, p[-1], depth + 1)
                except tf.Unsupported:
                    return None
        return None

    def lookup(self, mod, name, depth=0):
        if depth > 12:
            return None
        try:
            r = self.table(mod).get(name)
        except (tf.Unsupported, SyntaxError):
            return None
        if r is None:
            return None
        if r[0] == "class":
            return r
        if r[0] == "from":
            return self.lookup(r[1], r[2], depth + 1)
        return None

    def ancestors(self, cls):
        """(module, node) of a class and its ancestors, nearest first (depth first, last occurrence kept)"""
        out = []

        def go(c):
            out.append(c)
            for b in c[2].bases:
                r = self.resolve(c[1], b)
                if r is not None:
                    go(r)
        go(cls)
        seen, res = set(), []
        for c in reversed(out):
            k = (c[1], c[2].name)
            if k not in seen:
                seen.add(k)
                res.append(c)
        return res[::-1]


def dotted(e):
    p = []
    while isinstance(e, ast.Attribute):
        p.append(e.attr)
        e = e.value
    return [e.id] + p[::-1] if isinstance(e, ast.Name) else None


def members(node):
    """name -> (kind, function node) of the methods a class body defines"""
    out = {}
    for nd in node.body:
        if isinstance(nd, (ast.FunctionDef, ast.AsyncFunctionDef)):
            kind = "method"
            for d in nd.decorator_list:
                nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ""
                if nm in ("property", "cached_property"):
                    kind = "property"
                elif nm in ("staticmethod", "classmethod"):
                    kind = nm
                elif nm == "setter":
                    kind = "setter"
            if kind != "setter":
                out[nd.name] = (kind, nd)
        elif isinstance(nd, ast.Assign) and isinstance(nd.value, ast.Lambda):
            for t in nd.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = ("method", nd.value)
        elif isinstance(nd, ast.Assign) and isinstance(nd.value, ast.Name):
            for t in nd.targets:
                if isinstance(t, ast.Name) and nd.value.id in out:
                    out[t.id] = out[nd.value.id]
    return out


def binds(kind, fn, call):
    """error message when the call cannot be bound to the signature"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if kind in ("method", "classmethod", "property"):
        pos = pos[1:] if pos else pos
    npos_only = max(0, len(a.posonlyargs) - (1 if kind != "staticmethod" else 0))
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else list(pos)
    kwneed = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    kwonly = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    kws = [k.arg for k in call.keywords if k.arg]
    if n > len(pos) and a.vararg is None:
        return "%d positional arguments given, %d accepted" % (n, len(pos))
    for k in kws:
        if k not in kwonly and k not in pos[npos_only:] and a.kwarg is None:
            return "keyword %s is not accepted" % k
        if not star and k in pos[:n]:
            return "%s is given twice" % k
    if not star and not dstar:
        miss = [x for x in need[n:] if x not in kws] + [x for x in kwneed if x not in kws]
        if miss:
            return "required argument %s is not given" % miss[0]
    if dstar and not star:
        # what ** may add is the caller's; the rest has to fit
        pass
    return None


def substitutable(fn, base, names):
    """a caller who knows the base signature can call the override"""
    def split(f):
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args][1:]
        return a, pos, pos[:len(pos) - len(a.defaults)] if a.defaults else list(pos)
    a, pos, need = split(fn)
    b, bpos, bneed = split(base)
    if a.vararg is None and len(pos) < len(bpos):
        return "%d positional parameters instead of %d" % (len(pos), len(bpos))
    if b.vararg is not None and a.vararg is None:
        return "does not accept *%s" % b.vararg.arg
    if len(need) > len(bneed) and b.vararg is None:
        return "%s is required" % need[len(bneed)]
    if [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in [y.arg for y in b.kwonlyargs]]:
        return "a keyword is required"
    if names:
        for i, x in enumerate(bpos):
            if i < len(pos) and pos[i] != x:
                return "parameter %d is called %s instead of %s" % (i + 1, pos[i], x)
            if i >= len(pos) and x not in [y.arg for y in a.kwonlyargs] and a.kwarg is None:
                return "keyword %s is not accepted" % x
        for x in [y.arg for y in b.kwonlyargs]:
            if x not in pos and x not in [y.arg for y in a.kwonlyargs] and a.kwarg is None:
                return "keyword %s is not accepted" % x
    return None


def self_calls(fn, name):
    """calls self.name(...) in a method"""
    a = fn.args
    first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
    for nd in ast.walk(fn):
        if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr == name \
                and isinstance(nd.func.value, ast.Name) and nd.func.value.id == first:
            yield nd


def uses(fn, name, first):
    """reads of self.name that are not calls"""
    called = set()
    for nd in ast.walk(fn):
        if isinstance(nd, ast.Call):
            called.add(id(nd.func))
    for nd in ast.walk(fn):
        if isinstance(nd, ast.Attribute) and nd.attr == name and isinstance(nd.value, ast.Name) and nd.value.id == first \
                and isinstance(nd.ctx, ast.Load):
            yield nd, id(nd) in called


RECEIVERS = {"man", "manifold", "_manifold"}


def receiver_calls(tree, name, receivers):
    """calls <...>.name(...) on something known by name as an object of the class"""
    for nd in ast.walk(tree):
        if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr == name:
            v = nd.func.value
            nm = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else None
            if nm in receivers:
                yield nd


def receiver_reads(tree, name, receivers):
    called = {id(nd.func) for nd in ast.walk(tree) if isinstance(nd, ast.Call)}
    for nd in ast.walk(tree):
        if isinstance(nd, ast.Attribute) and nd.attr == name and id(nd) not in called:
            v = nd.value
            nm = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else None
            if nm in receivers:
                yield nd


def package_modules():
    root = os.path.join(interp.REPO, "robuststats")
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), interp.REPO)[:-3].replace(os.sep, ".")
                yield m[:-len(".__init__")] if m.endswith(".__init__") else m


def tree_of(prog, mod):
    return prog.src(mod).tree


def shown(call):
    try:
        return ast.unparse(call)
    except Exception:
        return "call"


@check("E07")
def e07():
    rep = Report("E07", "Every method defined by a package class whose ancestors include an installed class is bound, by signature, "
                 "against every call that the installed ancestors make to it on self, that installed code makes on a manifold, and "
                 "that a frozen distribution makes on its generic object; properties stay properties; the package's own calls are "
                 "bound in the same way.")
    prog = Program()
    rep.progs.append(prog)
    S = Src(prog)

    def go():
        found = 0
        classes = []
        for mod in package_modules():
            try:
                t = S.table(mod)
            except tf.Unsupported:
                continue
            for nm, r in list(t.items()):
                if r[0] == "class" and r[1] == mod:
                    classes.append(r)
        dist_of = frozen_pairs(S, classes)
        for c in classes:
            anc = S.ancestors(c)
            inst = [x for x in anc if not x[1].startswith("robuststats")]
            if not inst:
                continue
            # methods as seen on this class
            eff = {}
            for x in reversed([x for x in anc if x[1].startswith("robuststats")]):
                for k, v in members(x[2]).items():
                    eff[k] = (v, x)
            base = {}
            for x in reversed(inst):
                for k, v in members(x[2]).items():
                    base[k] = (v, x)
            cname = c[2].name
            is_man = any(x[1] == "pymanopt.manifolds.manifold" for x in inst)
            for k, ((kind, fn), owner) in sorted(eff.items()):
                where = "%s:%s.%s:%d" % (owner[1].replace(".", "/") + ".py", owner[2].name, k, fn.lineno)
                callers = []
                if k not in ("__init__", "__call__", "__new__"):
                    for x in inst:
                        for k2, (kd2, f2) in members(x[2]).items():
                            if k2 in eff and eff[k2][1] is not x and not reached_by_super(S, eff, k2):
                                continue             # this body is replaced and never reached
                            for cl in self_calls(f2, k):
                                callers.append((x[1], x[2].name + "." + k2, cl))
                if is_man and (k in base):
                    for m2 in pymanopt_users():
                        try:
                            tr = tree_of(prog, m2)
                        except tf.Unsupported:
                            continue
                        for cl in receiver_calls(tr, k, RECEIVERS):
                            callers.append((m2, "", cl))
                        if kind not in ("property",) and base[k][0][0] == "property":
                            for rd in receiver_reads(tr, k, RECEIVERS):
                                rep.ob("%s.%s: read as an attribute" % (cname, k), False, where,
                                       "%s:%d reads it without calling it" % (m2, rd.lineno))
                                found += 1
                for fz in dist_of.get(cname, ()):
                    for x in S.ancestors(fz):
                        for k2, (kd2, f2) in members(x[2]).items():
                            for cl in receiver_calls(f2, k, {"_dist"}):
                                callers.append((x[1], x[2].name + "." + k2, cl))
                for m2 in package_modules():
                    pass
                for x in anc:
                    if x[1].startswith("robuststats"):
                        for k2, (kd2, f2) in members(x[2]).items():
                            for cl in self_calls(f2, k):
                                callers.append((x[1], x[2].name + "." + k2, cl))
                seen = set()
                for m2, inn, cl in callers:
                    sig = (m2, cl.lineno, cl.col_offset)
                    if sig in seen:
                        continue
                    seen.add(sig)
                    found += 1
                    if kind == "property":
                        rep.ob("%s.%s: called in %s" % (cname, k, inn or m2), False, where, "a property is called: %s" % shown(cl)[:120])
                        continue
                    e = binds(kind, fn, cl)
                    rep.ob("%s.%s: accepts %s of %s" % (cname, k, shown(cl)[:80], inn or m2), e is None, where,
                           "%s:%d: %s" % (m2, cl.lineno, e), "signature binding")
                if k in base and base[k][0][0] == "property" and kind != "property":
                    rep.ob("%s.%s: stays a property" % (cname, k), False, where, "a property of %s is overridden by a method" % base[k][1][2].name)
                elif k in base and kind == "property" and base[k][0][0] == "method":
                    rep.ob("%s.%s: stays a method" % (cname, k), False, where, "a method of %s is overridden by a property" % base[k][1][2].name)
                elif k in base:
                    if kind == "method" and not k.startswith("_"):
                        names = not any(x[1].startswith("pymanopt") for x in inst)
                        e = substitutable(fn, base[k][0][1], names)
                        rep.ob("%s.%s: accepts the arguments of %s.%s" % (cname, k, base[k][1][2].name, k), e is None, where, str(e),
                               "signature comparison")
                    found += 1
                    rep.ob("%s.%s: same kind of member as in %s" % (cname, k, base[k][1][2].name), True, where, "", "member kind")
        rep.ob("calls and members found", found > 40 or None, "", "%d" % found)
    rep.guard("classes", go)
    return rep


def reached_by_super(S, eff, k):
    (kind, fn), owner = eff[k]
    for nd in ast.walk(fn):
        if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr == k and isinstance(nd.func.value, ast.Call) \
                and isinstance(nd.func.value.func, ast.Name) and nd.func.value.func.id == "super":
            return True
    return False


def pymanopt_users():
    root = os.path.join(interp.SITE, "pymanopt")
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py") and ("solvers" in d or "core" in d or f in ("product.py", "manifold.py")):
                yield os.path.relpath(os.path.join(d, f), interp.SITE)[:-3].replace(os.sep, ".").replace(".__init__", "")


def frozen_pairs(S, classes):
    """generic class -> frozen classes whose _dist is (possibly) an object of it"""
    out = {}
    for c in classes:
        for fn in [m for k, (kd, m) in members(c[2]).items()]:
            for nd in ast.walk(fn):
                if isinstance(nd, ast.Assign) and isinstance(nd.value, ast.Call) and isinstance(nd.value.func, ast.Name):
                    for t in nd.targets:
                        if isinstance(t, ast.Attribute) and t.attr == "_dist":
                            out.setdefault(nd.value.func.id, []).append(c)
    return out
