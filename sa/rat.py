"""Exact rational functions over named scalar symbols (the coefficient field).

A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of
(symbol, exponent) pairs.  A Rat is a reduced pair of polynomials with a monic
denominator, so equality of rational functions is equality of objects.
"""
from fractions import Fraction
from functools import lru_cache

ONE_M = ()


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted((v, e) for v, e in d.items() if e))


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def pscale(a, c):
    return {m: x * c for m, x in a.items()} if c else {}


def pvars(a):
    s = set()
    for m in a:
        for v, _ in m:
            s.add(v)
    return s


def _as_uni(p, v):
    """dict degree -> polynomial in the other symbols"""
    r = {}
    for m, c in p.items():
        e = 0
        rest = []
        for w, k in m:
            if w == v:
                e = k
            else:
                rest.append((w, k))
        r.setdefault(e, {})[tuple(rest)] = c
    return r


def _from_uni(u, v):
    r = {}
    for e, p in u.items():
        for m, c in p.items():
            k = _mmul(m, ((v, e),)) if e else m
            r[k] = r.get(k, 0) + c
    return {m: c for m, c in r.items() if c}


def pdiv_exact(a, b):
    """a / b when b divides a, else None (multivariate long division)."""
    if not b:
        return None
    if len(b) == 1:
        (m, c), = b.items()
        r = {}
        dm = dict(m)
        for n, d in a.items():
            dn = dict(n)
            for v, e in dm.items():
                if dn.get(v, 0) < e:
                    return None
                dn[v] -= e
            r[tuple(sorted((v, e) for v, e in dn.items() if e))] = d / c
        return r
    vs = pvars(b)
    v = min(vs)
    ub = _as_uni(b, v)
    db = max(ub)
    rem = dict(a)
    quo = {}
    while rem:
        ua = _as_uni(rem, v)
        da = max(ua)
        if da < db:
            return None
        q = pdiv_exact(ua[da], ub[db])
        if q is None:
            return None
        t = _from_uni({da - db: q}, v)
        quo = padd(quo, t)
        rem = padd(rem, pmul(t, b), -1)
    return quo


def psqrt(p):
    """q with q*q == p, or None (lexicographic long division)"""
    from math import isqrt
    if len(p) < 3:
        return None
    vs = sorted(pvars(p))
    key = lambda m: tuple(dict(m).get(v, 0) for v in vs)
    lead = max(p, key=key)
    if any(e % 2 for _, e in lead) or p[lead] <= 0:
        return None
    c = Fraction(p[lead])
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    m0 = tuple((v, e // 2) for v, e in lead)
    q = {m0: Fraction(a, b)}
    for _ in range(len(p) + 2):
        r = padd(p, pmul(q, q), -1)
        if not r:
            return q
        m = max(r, key=key)
        d = dict(m)
        for v, e in m0:
            d[v] = d.get(v, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        k = tuple(sorted((v, e) for v, e in d.items() if e))
        if k in q:
            return None
        q[k] = r[m] / (2 * Fraction(a, b))
    return None


def _lead(p):
    return max(p, key=lambda m: (sum(e for _, e in m), m))


def pmonic(p):
    c = p[_lead(p)]
    return pscale(p, 1 / Fraction(c)), c


def _content(u):
    g = {}
    for p in u.values():
        g = pgcd(g, p)
        if len(g) == 1 and ONE_M in g:
            break
    return g


def pgcd(a, b):
    if not a:
        return pmonic(b)[0] if b else {}
    if not b:
        return pmonic(a)[0]
    va, vb = pvars(a), pvars(b)
    if not va or not vb:
        return {ONE_M: Fraction(1)}
    common = va & vb
    if not common:
        return {ONE_M: Fraction(1)}
    if len(a) == 1 or len(b) == 1:
        # gcd with a monomial
        ms = list(a) + list(b)
        d = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            d = {v: min(e, dm.get(v, 0)) for v, e in d.items()}
        return {tuple(sorted((v, e) for v, e in d.items() if e)): Fraction(1)}
    v = min(common)
    ua, ub = _as_uni(a, v), _as_uni(b, v)
    ca, cb = _content(ua), _content(ub)
    cg = pgcd(ca, cb)
    pa = pdiv_exact(a, ca)
    pb = pdiv_exact(b, cb)
    f, g = pa, pb
    if max(_as_uni(f, v)) < max(_as_uni(g, v)):
        f, g = g, f
    while g:
        # pseudo remainder of f by g in v
        ug = _as_uni(g, v)
        dg = max(ug)
        if dg == 0:
            f = {ONE_M: Fraction(1)}
            g = {}
            break
        r = f
        while r:
            ur = _as_uni(r, v)
            dr = max(ur)
            if dr < dg:
                break
            t = _from_uni({dr - dg: ur[dr]}, v)
            r = padd(pmul(r, ug[dg]), pmul(t, g), -1)
        if r:
            c = _content(_as_uni(r, v))
            r = pdiv_exact(r, c)
        f, g = g, r
    f = pmonic(f)[0]
    return pmonic(pmul(f, cg))[0]


class Rat:
    __slots__ = ("n", "d", "_k")

    def __init__(self, n, d):
        self.n, self.d, self._k = n, d, None

    @property
    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.n.items())), tuple(sorted(self.d.items())))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Rat) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def is_zero(self):
        return not self.n

    def is_const(self):
        return all(m == ONE_M for m in self.n) and all(m == ONE_M for m in self.d)

    def const(self):
        if not self.n:
            return Fraction(0)
        if self.is_const():
            return Fraction(self.n[ONE_M]) / Fraction(self.d[ONE_M])
        return None

    def __repr__(self):
        def s(p):
            if not p:
                return "0"
            out = []
            for m, c in sorted(p.items()):
                f = "*".join("%s%s" % (v, "" if e == 1 else "^%s" % e) for v, e in m)
                if not f:
                    out.append(str(c))
                elif c == 1:
                    out.append(f)
                else:
                    out.append("%s*%s" % (c, f))
            return "+".join(out)
        if self.d == {ONE_M: 1}:
            return s(self.n)
        return "(%s)/(%s)" % (s(self.n), s(self.d))


def _mk(n, d):
    if not n:
        return ZERO
    if len(d) == 1 and ONE_M in d:
        c = d[ONE_M]
        return Rat(pscale(n, 1 / Fraction(c)) if c != 1 else n, {ONE_M: Fraction(1)})
    g = pgcd(n, d)
    if not (len(g) == 1 and ONE_M in g):
        n = pdiv_exact(n, g)
        d = pdiv_exact(d, g)
    d, c = pmonic(d)
    if c != 1:
        n = pscale(n, 1 / Fraction(c))
    return Rat(n, d)


ZERO = Rat({}, {ONE_M: Fraction(1)})


def const(c):
    c = Fraction(c)
    return Rat({ONE_M: c}, {ONE_M: Fraction(1)}) if c else ZERO


ONE = const(1)


@lru_cache(maxsize=None)
def sym(name):
    return Rat({((name, 1),): Fraction(1)}, {ONE_M: Fraction(1)})


_cache = {}


def _memo(op, a, b, f):
    k = (op, a.key, b.key)
    r = _cache.get(k)
    if r is None:
        r = _cache[k] = f()
    return r


def add(a, b):
    if a.is_zero():
        return b
    if b.is_zero():
        return a
    return _memo("+", a, b, lambda: _mk(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d)))


def neg(a):
    return Rat(pscale(a.n, -1), a.d) if a.n else a


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a is ONE or a == ONE:
        return b
    if b is ONE or b == ONE:
        return a
    if a.is_zero() or b.is_zero():
        return ZERO
    return _memo("*", a, b, lambda: _mk(pmul(a.n, b.n), pmul(a.d, b.d)))


def inv(a):
    if a.is_zero():
        raise ZeroDivisionError
    return _mk(a.d, a.n)


def div(a, b):
    return mul(a, inv(b))


def powi(a, n):
    if n < 0:
        return powi(inv(a), -n)
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def symbols(a):
    return pvars(a.n) | pvars(a.d)


def subst(a, env):
    """env: symbol -> Rat"""
    if not (symbols(a) & set(env)):
        return a

    def ev(p):
        r = ZERO
        for m, c in p.items():
            t = const(c)
            for v, e in m:
                t = mul(t, powi(env[v] if v in env else sym(v), e))
            r = add(r, t)
        return r
    return div(ev(a.n), ev(a.d))


def nonneg(a, pos):
    """True if provably > 0 given every symbol for which pos(symbol) is >0."""
    def p_ok(p):
        return p and all(c > 0 for c in p.values()) and all(pos(v) for m in p for v, _ in m)
    if not a.n:
        return True
    return bool(p_ok(a.n) and p_ok(a.d))


def positive(a, pos):
    return bool(a.n) and nonneg(a, pos)


def negative(a, pos):
    return bool(a.n) and nonneg(neg(a), pos)


def is_integral(a, ints):
    """a polynomial with integer coefficients in integer-valued symbols"""
    if set(a.d) != {ONE_M}:
        return False
    k = a.d[ONE_M]
    return all((c / k).denominator == 1 for c in a.n.values()) and pvars(a.n) <= set(ints)


def positive_int(a, pos, ints, shift):
    """a > 0 knowing that the symbols of `ints` (replaced through shift) are >= 0 and those of pos are > 0"""
    x = subst(a, shift)

    def strict(p):
        return any(c > 0 and not any(v in ints for v, _ in m) for m, c in p.items())
    return nonneg(x, pos) and strict(x.n) and strict(x.d)


def divmod_int(a, ints, pos):
    """(q, r) with a = q + r, q integer-valued and 0 <= r < 1 a constant, q >= 0 when every other term is; None otherwise"""
    if set(a.d) != {ONE_M} or not pvars(a.n) <= set(ints):
        return None
    k = a.d[ONE_M]
    cst = Fraction(a.n.get(ONE_M, 0)) / k
    if any((c / k).denominator != 1 for m, c in a.n.items() if m != ONE_M):
        return None
    r = cst - (cst.numerator // cst.denominator)
    return sub(a, const(r)), r
