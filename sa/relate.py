"""Relational analysis: how results, loop states and branch conditions change
when the inputs are transformed.

A relation is a substitution of the input leaves together with, for every loop
variable, a transformation chosen among a few candidates for its shape.  It holds
when every loop's initial value and back edge carry the same transformation
(induction over the iterations), every branch condition keeps its truth value,
and the results transform as demanded.
"""
import rat as R
import tf
from interp import Arr, UNDEF
from chk import same

ONE = R.const(1)


def flat_pairs(key, init, phi, nxt):
    if isinstance(phi, (list, tuple)):
        for i, x in enumerate(phi):
            yield from flat_pairs("%s[%d]" % (key, i),
                                  init[i] if isinstance(init, (list, tuple)) and i < len(init) else UNDEF, x,
                                  nxt[i] if isinstance(nxt, (list, tuple)) and i < len(nxt) else UNDEF)
        return
    yield key, init, phi, nxt


def phi_node(v):
    """the phi leaf when the value is exactly one"""
    if isinstance(v, Arr) and len(v.t.terms) == 1:
        (ph, fs), c = v.t.terms[0]
        if len(fs) == 1 and c == ONE and not ph and fs[0][0].kind == "leaf" and fs[0][0].args[0].startswith("phi"):
            return fs[0][0]
    return None


def to_T(v):
    if isinstance(v, Arr):
        return v.t
    if isinstance(v, bool) or v is UNDEF or v is None:
        return None
    if isinstance(v, int) or (hasattr(v, "denominator") and not isinstance(v, float)):
        return tf.scalar(R.const(v))
    return None


def phis_in(t):
    return {nd for nd in tf.walk_nodes(t) if nd.kind == "leaf" and nd.args[0].startswith("phi")}


class LoopVar:
    def __init__(self, node, key, rec, path, init, phi, nxt):
        self.node, self.key, self.rec, self.path = node, key, rec, path
        self.init, self.phi, self.next = init, phi, nxt


def loop_vars(paths, modes=("while", "seq")):
    out = []
    for q in paths:
        for rec in q.loops:
            if rec.mode not in modes:
                continue
            for k, ph in rec.phi.items():
                ks = k if isinstance(k, str) else "%s" % (k[-1],)
                for kk, i, f, x in flat_pairs(ks, rec.init.get(k, UNDEF), ph, rec.next.get(k, UNDEF)):
                    nd = phi_node(f)
                    if nd is not None:
                        out.append(LoopVar(nd, kk, rec, q, i, f, x))
    return out


def result_values(q):
    """arrays and numbers of the result dictionary of a path"""
    return q.result if isinstance(q.result, dict) else {"result": q.result}


def relevant(paths, names, extra=()):
    lv = loop_vars(paths)
    need = set()
    for q in paths:
        if q.outcome == "return":
            for k, v in result_values(q).items():
                if names is None or k in names:
                    t = to_T(v)
                    if t is not None:
                        need |= phis_in(t)
        for cnd in q.conds:
            if hasattr(cnd.t, "terms"):
                need |= phis_in(cnd.t)
    while True:
        k0 = len(need)
        for v in lv:
            if v.node in need:
                t = to_T(v.next)
                if t is not None:
                    need |= phis_in(t)
        if len(need) == k0:
            break
    return [v for v in lv if v.node in need]


class Relation:
    """leaves: {node: T}, syms: {name: Rat}; candidates(T) -> [(label, f)]; dims: sizes for the evaluator"""

    def __init__(self, name, leaves, candidates, syms=None, dims=None, scales=()):
        self.name, self.leaves, self.candidates = name, leaves, candidates
        self.syms = syms or {}
        self.dims = dims
        self.scales = list(scales)
        self.choice = {}

    def subst(self):
        lv = dict(self.leaves)
        for nd, (lab, f) in self.choice.items():
            lv[nd] = f(tf.from_node(nd))
        return tf.Subst(lv, self.syms)

    def solve(self, paths, names, rep, tag):
        """find an inductive transformation of the loop variables"""
        lv = relevant(paths, names)
        remaining = {}
        for v in lv:
            if v.node not in remaining:
                remaining[v.node] = list(self.candidates(v.phi.t))
                if not remaining[v.node]:
                    rep.ob("%s: loop variable %s" % (tag, v.key), None, v.rec.where(), "no transformation for its shape")
                    return False
        for nd, r in remaining.items():
            self.choice[nd] = r[0]
        first = {}
        for _ in range(80):
            sg = self.subst()
            progress = False
            for what in ("init", "next"):
                for v in lv:
                    f = self.choice[v.node][1]
                    t = to_T(getattr(v, what))
                    if t is None:
                        continue             # an unset or infinite start value is a constant
                    if what == "next" and v.path.outcome not in ("back", "return"):
                        continue
                    try:
                        got, want = sg(t), f(t)
                    except tf.Unsupported:
                        got = want = None
                    if got is None:
                        ok, how, det = None, "", "not expressible"
                    elif got is want:
                        continue
                    else:
                        ok, how, det = same(got, want, dims=self.dims)
                    if ok:
                        continue
                    r = remaining[v.node]
                    first.setdefault((v.node, what), (det, how))
                    if len(r) > 1:
                        r.pop(0)
                        self.choice[v.node] = r[0]
                        progress = True
                        break
                    rep.ob("%s: loop variable %s %s" % (tag, v.key, "start value" if what == "init" else "after one iteration"),
                           ok if ok is None else False, v.rec.where(), *first[(v.node, what)])
                    return False
                if progress:
                    break
            if not progress:
                for v in lv:
                    rep.ob("%s: loop variable %s transforms as %s" % (tag, v.key, self.choice[v.node][0]), True,
                           v.rec.where())
                return True
        rep.ob("%s: loop variables" % tag, None, "", "no inductive transformation found")
        return False

    def conditions(self, paths, rep, tag):
        sg = self.subst()
        done = {}
        good = True
        for q in paths:
            for cd in q.conds:
                if not hasattr(cd.t, "terms") or cd.t.id in done:
                    continue
                done[cd.t.id] = 1
                t = sg(cd.t)
                if t is cd.t:
                    ok, how, det = True, "normal form", ""
                else:
                    ok = None
                    for s in self.scales:
                        if t is tf.scale_T(cd.t, s):
                            ok, how, det = True, "normal form", ""
                    if ok is None:
                        ok, how, det = same(t, cd.t, dims=self.dims)
                        if ok is False:
                            for s in self.scales:
                                o2, h2, d2 = same(t, tf.scale_T(cd.t, s), dims=self.dims)
                                if o2:
                                    ok, how, det = o2, h2, ""
                rep.ob("%s: branch condition keeps its value" % tag, ok, cd.where(),
                       det or tf.show(cd.t, 1)[:160], how)
                good = good and bool(ok)
        return good

    def results(self, paths, wants, rep, tag, where):
        """wants: {result name: (label, f)}"""
        sg = self.subst()
        good = True
        seen = set()
        for q in paths:
            if q.outcome != "return":
                continue
            for k, (lab, f) in wants.items():
                v = result_values(q).get(k)
                t = to_T(v)
                if t is None:
                    if v is None or isinstance(v, (int, float)):
                        continue
                    rep.ob("%s: %s" % (tag, k), None, where, "not a number or array: %r" % (v,))
                    continue
                if (k, t.id) in seen:
                    continue
                seen.add((k, t.id))
                got, want = sg(t), f(t)
                ok, how, det = same(got, want, dims=self.dims)
                rep.ob("%s: %s %s" % (tag, k, lab), ok, where, det or tf.show(t, 1)[:200], how)
                good = good and bool(ok)
        return good

    def check(self, run, wants, rep, tag):
        if not run.returns():
            rep.ob("%s: a result" % tag, None, run.where, "no path returns: %s" % [q.result for q in run.raises()][:2])
            return False
        self.choice = {}
        if not self.solve(run.paths, set(wants), rep, tag):
            return False
        a = self.conditions(run.paths, rep, tag)
        b = self.results(run.paths, wants, rep, tag, run.where)
        return a and b


def ident(t):
    return t


IDENT = ("is unchanged", ident)


def scale_by(k, sym="c"):
    """multiplication by sym**k"""
    s = R.powi(R.sym(sym), k)
    return ("is multiplied by %s^%d" % (sym, k), lambda t: tf.scale_T(t, s))


def left(W, t):
    """W applied on the first slot of t"""
    k, x = t.n, tf.fresh()
    return tf.contract([(W, [0, x]), (t, [x] + list(range(1, k)))], list(range(k)), t.sizes, t.dims, {x: t.dims[0]})


def last(W, t):
    """W applied on the last slot of t"""
    k, x = t.n, tf.fresh()
    return tf.contract([(t, list(range(k - 1)) + [x]), (W, [k - 1, x])], list(range(k)), t.sizes, t.dims,
                       {x: t.dims[-1]})


def congruence(W, t):
    """W t W^H"""
    return last(tf.conj_T(W), left(W, t))
