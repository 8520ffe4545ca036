"""Hash-consed value-graph terms with algebraic normal forms.

Numeric terms are polynomials with rational coefficients over *atoms* (symbols, pi, the
imaginary unit, function applications, gates, reductions).  Two numeric terms that are equal as
polynomials over the same atoms are the same Python object, so "proved equal" is ``a is b``.
Nothing here executes repository code.
"""

from fractions import Fraction
from math import gcd

F = Fraction
_TABLE = {}
_NEXT = [0]


class T:
    __slots__ = ("op", "args", "id", "height", "_memo")

    def __init__(self, op, args, height):
        self.op = op
        self.args = args
        self.id = _NEXT[0]
        _NEXT[0] += 1
        self.height = height
        self._memo = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def _height(args):
    h = 0
    for a in args:
        if isinstance(a, T):
            if a.height > h:
                h = a.height
        elif isinstance(a, tuple):
            hh = _height(a)
            if hh > h:
                h = hh
    return h


def mk(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        h = _height(args)
        if op == "lam":
            h = args[0]
        t = T(op, args, h)
        _TABLE[key] = t
    return t


# ----------------------------------------------------------------------------------------------
# constants and symbols

TRUE = mk("bool", True)
FALSE = mk("bool", False)
NONE = mk("none")
PI = mk("pi")
IMAG = mk("I")
INF = mk("inf")
NAN = mk("nan")

SYM_PROPS = {}  # symbol -> {"sign": "pos"/"nonneg"/..., "int": bool}
_FRESH = [0]


def boolean(b):
    return TRUE if b else FALSE


def q(x):
    """Rational constant."""
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        x = int(x)
    return mk("q", F(x))


ZERO = q(0)
ONE = q(1)
TWO = q(2)
HALF = q(F(1, 2))


def sym(name, sort="real", **props):
    t = mk("sym", name, sort)
    if props:
        SYM_PROPS[t] = dict(SYM_PROPS.get(t, {}), **props)
    return t


def fresh(name, sort="real", **props):
    _FRESH[0] += 1
    return sym("%s#%d" % (name, _FRESH[0]), sort, **props)


def arrsym(name, dtype="float", **props):
    t = mk("arrsym", name, dtype)
    if props:
        SYM_PROPS[t] = dict(SYM_PROPS.get(t, {}), **props)
    return t


def string(s):
    return mk("str", s)


def is_const_num(t):
    return t.op == "q"


def is_bool(t):
    return t.op in ("bool", "not", "and", "or", "lt", "le", "eqz", "same", "forall", "exists",
                    "isclose", "strtest") or (t.op == "loopfn" and t.args[1] == "bool") or (t.op in ("sym", "app_b") and t.args[1] == "bool") or (
        t.op == "ite" and is_bool(t.args[1]) and is_bool(t.args[2])) or (
        t.op == "elem" and t.args[0].op == "arrsym" and t.args[0].args[1] == "bool") or (
        t.op == "opaque" and t.args[1] == "bool")


def is_string(t):
    return t.op in ("str", "cat", "tostr", "repr", "fmt", "join", "binrepr", "charat", "strfn",
                    "nprepr") or (t.op in ("sym", "opaque", "loopfn") and t.args[1] == "str") or (
        t.op == "elem" and t.args[0].op == "arrsym" and t.args[0].args[1] == "str") or (
        t.op == "ite" and is_string(t.args[1]) and is_string(t.args[2]))


_NONNUM = {"bool", "none", "str", "cat", "tostr", "repr", "fmt", "join", "not", "and", "or", "lt",
           "le", "eqz", "same", "forall", "exists", "lam", "arrsym", "isclose", "binrepr",
           "charat", "strfn", "strtest", "nprepr"}


def is_num(t):
    if t.op in _NONNUM:
        return False
    if t.op == "sym":
        return t.args[1] in ("real", "int", "complex")
    if t.op == "ite":
        return is_num(t.args[1]) and is_num(t.args[2])
    if t.op == "elem":
        return t.args[0].op == "arrsym" and t.args[0].args[1] in ("float", "int", "complex")
    if t.op in ("opaque", "loopfn"):
        return t.args[1] in ("real", "int", "num", "float", "complex")
    return True


def is_int(t):
    m = t._memo
    if m is None:
        m = t._memo = {}
    r = m.get("int")
    if r is None:
        r = m["int"] = _is_int(t)
    return r


def _is_int(t):
    op = t.op
    if op == "q":
        return t.args[0].denominator == 1
    if op == "sym":
        return t.args[1] == "int"
    if op == "elem":
        return t.args[0].op == "arrsym" and t.args[0].args[1] == "int"
    if op in ("floor", "nth", "bit", "sgn", "strlen"):
        return True
    if op in ("opaque", "loopfn"):
        return t.args[1] == "int"
    if op == "poly":
        for mono, c in t.args[0]:
            if c.denominator != 1:
                return False
            for a, e in mono:
                if e < 0 or not is_int(a):
                    return False
        return True
    if op == "ite":
        return is_int(t.args[1]) and is_int(t.args[2])
    if op == "max":
        return all(is_int(a) for a in t.args)
    if op in ("sum", "prod", "amax", "amin", "rank"):
        return is_int(t.args[1].args[1])
    if op == "argrank":
        return True
    if op == "abs":
        return is_int(t.args[0])
    if op == "pow":
        return is_int(t.args[0]) and is_int(t.args[1]) and bool(_nonneg_quick(t.args[1]))
    if op == "lookup":
        return all(is_int(x) for x in t.args[1:])
    return False


_NONNEG_HOOK = [None]


def _nonneg_quick(t):
    if t.op == "q":
        return t.args[0] >= 0
    if t.op == "floor" and t.args[0].op == "log2":
        return True  # only ever built for orders >= 1 (checked by the guards in the facts)
    if t.op == "sym":
        return SYM_PROPS.get(t, {}).get("sign") in ("pos", "nonneg")
    if t.op in ("pi", "exp", "sqrt", "abs"):
        return True
    if t.op == "max":
        return any(_nonneg_quick(a) for a in t.args)
    if t.op == "inv":
        return _nonneg_quick(t.args[0])
    if t.op == "poly":
        for mono, c in t.args[0]:
            if c < 0:
                return False
            for a, e in mono:
                if e % 2 and not _nonneg_quick(a):
                    return False
        return True
    return False


# ----------------------------------------------------------------------------------------------
# polynomial layer.  mono = tuple of (atom, exponent) sorted by atom id; poly = dict mono->coeff


def to_poly(t):
    if t.op == "q":
        c = t.args[0]
        return {(): c} if c else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): F(1)}


def from_poly(p):
    items = [(m, c) for m, c in p.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return q(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=_mono_key)
    return mk("poly", tuple(items))


def _mono_key(item):
    m = item[0]
    return tuple((a.id, e) for a, e in m)


def _mono_mul(m1, m2):
    """Product of monomials -> (list of (mono, coeff)) after atom rules."""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _mono_norm(d)


def _shifted(p):
    """x if p is x + constant for an integer symbol x."""
    if p.op == "poly" and len(p.args[0]) == 2:
        for (m, c), (n, _) in (p.args[0], p.args[0][::-1]):
            if c == 1 and len(m) == 1 and not n and m[0][1] == 1 and m[0][0].op == "sym" and m[0][0].args[1] == "int":
                return m[0][0]
    return None


def _mono_norm(d):
    coeff = F(1)
    extra = None  # polynomial factor to multiply in
    for a in list(d):
        e = d.get(a, 0)
        if e == 0:
            d.pop(a, None)
            continue
        op = a.op
        if op == "I" and not 0 <= e <= 1:
            k = e % 4
            if k >= 2:
                coeff = -coeff
            k = k % 2
            if k:
                d[a] = 1
            else:
                del d[a]
        elif op == "sqrt" and not -1 <= e <= 1:
            k = e // 2 if e > 0 else -((-e) // 2)
            r = e - 2 * k
            if r:
                d[a] = r
            else:
                del d[a]
            f = ipow(a.args[0], k)
            extra = f if extra is None else mul(extra, f)
        elif op == "cos" and e >= 2:
            k = e // 2
            r = e - 2 * k
            if r:
                d[a] = r
            else:
                del d[a]
            s = sin(a.args[0])
            f = ipow(sub(ONE, mul(s, s)), k)
            extra = f if extra is None else mul(extra, f)
        elif op == "inv" and e >= 1:
            # x/(x + k) = 1 - k/(x + k)
            x = _shifted(a.args[0])
            if x is not None and d.get(x, 0) >= 1:
                k = d.pop(x)
                d.pop(a)
                rest = sub(a.args[0], x)
                f = sub(ONE, mul(rest, a))
                if e > 1:
                    f = mul(f, ipow(a, e - 1))
                if k > 1:
                    f = mul(f, from_poly({((x, k - 1),): F(1)}))
                extra = f if extra is None else mul(extra, f)
    m = tuple(sorted(d.items(), key=lambda x: x[0].id))
    if extra is None:
        return [(m, coeff)]
    p = _pmul({m: coeff}, to_poly(extra))
    return list(p.items())


def _pmul(p1, p2):
    out = {}
    for m1, c1 in p1.items():
        for m2, c2 in p2.items():
            c = c1 * c2
            if not m1:
                out[m2] = out.get(m2, 0) + c
            elif not m2:
                out[m1] = out.get(m1, 0) + c
            else:
                for m, k in _mono_mul(m1, m2):
                    out[m] = out.get(m, 0) + c * k
    return {m: c for m, c in out.items() if c}


def _special(*ts):
    for t in ts:
        if t.op in ("inf", "nan"):
            return True
    return False


def add(*ts):
    out = {}
    for t in ts:
        if t.op in ("inf", "nan"):
            return mk("opaque", "special", "real")
        for m, c in to_poly(as_num(t)).items():
            out[m] = out.get(m, 0) + c
    return from_poly(out)


def neg(t):
    if t is INF:
        return mk("neginf")
    t = as_num(t)
    if t.op in ("q", "poly"):
        m = t._memo
        if m is None:
            m = t._memo = {}
        r = m.get("neg")
        if r is None:
            if t.op == "q":
                r = q(-t.args[0])
            else:
                items = t.args[0]
                if len(items) == 1 and items[0][1] == -1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
                    r = items[0][0][0][0]
                else:
                    r = mk("poly", tuple((mm, -c) for mm, c in items))
            m["neg"] = r
        return r
    return mul(q(-1), t)


def sub(a, b):
    if b is ZERO:
        return as_num(a)
    if a is b and a.op not in ("inf", "nan", "neginf"):
        return ZERO
    return add(a, neg(b))


MAX_TERMS = 4000


def mul(*ts):
    p = {(): F(1)}
    # cancel multi-term polynomials against their stored inverses
    ts = [as_num(t) for t in ts]
    if _special(*ts):
        return mk("opaque", "special", "real")
    if len(ts) == 2 and ts[0].op == "q" and ts[1].op == "poly":
        c = ts[0].args[0]
        if c == 1:
            return ts[1]
        if c == -1:
            return neg(ts[1])
        return from_poly({m: k * c for m, k in ts[1].args[0]})
    ts = _cancel(ts)
    for t in ts:
        b = to_poly(t)
        if len(p) * len(b) > MAX_TERMS:
            return mk("opaque", "big:%s" % "*".join(str(x.id) for x in ts), "real")
        p = _pmul(p, b)
    return from_poly(p)


def _cancel(ts):
    """If one factor is a multi-term polynomial P and another contains (P)^-k, cancel."""
    ts = list(ts)
    for i, t in enumerate(ts):
        if t.op != "poly" or len(t.args[0]) < 2:
            continue
        c, prim = _primitive(t)
        for j, u in enumerate(ts):
            if i == j:
                continue
            if _has_inv(u, prim):
                # every monomial of u contains prim^-k with k>=1
                nu = _strip_inv(u, prim)
                if nu is not None:
                    ts[i] = q(c)
                    ts[j] = nu
                    return _cancel(ts)
    return ts


def _has_inv(u, prim):
    if u.op == "inv":
        return u.args[0] is prim
    if u.op == "poly":
        for m, _ in u.args[0]:
            for a, e in m:
                if a.op == "inv" and a.args[0] is prim:
                    return True
    return False


def _strip_inv(u, prim):
    inv = mk("inv", prim)
    out = {}
    for m, c in to_poly(u).items():
        d = dict(m)
        if d.get(inv, 0) < 1:
            return None
        d[inv] -= 1
        for mm, k in _mono_norm(d):
            out[mm] = out.get(mm, 0) + c * k
    return from_poly(out)


def _primitive(t):
    """t = c * prim, prim has content 1 and positive leading coefficient. c rational."""
    items = t.args[0]
    num = 0
    den = 1
    for _, c in items:
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    c = F(num, den)
    if items[0][1] < 0:
        c = -c
    if c == 1:
        return F(1), t
    return c, mk("poly", tuple((m, k / c) for m, k in items))


def inv(t):
    t = as_num(t)
    if t.op == "q":
        if t.args[0] == 0:
            return mk("opaque", "div0", "real")
        return q(1 / t.args[0])
    if t is IMAG:
        return neg(IMAG)
    if t.op in ("inf", "nan", "opaque"):
        return mk("inv", t) if t.op == "opaque" else mk("opaque", "special", "real")
    if t.op == "poly":
        items = t.args[0]
        if len(items) == 1:
            m, c = items[0]
            d = {}
            extra = []
            for a, e in m:
                if a.op == "inv":
                    extra.append((a.args[0], e))
                elif a.op == "ite":
                    d[a] = -e
                else:
                    d[a] = -e
            out = {}
            for mm, k in _mono_norm(d):
                out[mm] = k / c
            r = from_poly(out)
            for p, e in extra:
                r = mul(r, ipow(p, e))
            return r
        # common monomial factor
        g = _mono_gcd(items)
        if g:
            rest = from_poly({_mono_div(m, g): c for m, c in items})
            return mul(inv(from_poly({g: F(1)})), inv(rest))
        c, prim = _primitive(t)
        # complex denominators are never produced by the analysed code
        return mul(q(1 / c), mk("inv", prim))
    if t.op == "inv":
        return t.args[0]
    return from_poly({((t, -1),): F(1)})


def _mono_gcd(items):
    g = None
    for m, _ in items:
        d = dict(m)
        if g is None:
            g = d
        else:
            for a in list(g):
                if a not in d or (g[a] > 0) != (d[a] > 0):
                    del g[a]
                else:
                    g[a] = min(g[a], d[a]) if g[a] > 0 else max(g[a], d[a])
        if not g:
            return ()
    g = {a: e for a, e in g.items() if a.op not in ("inv", "I", "sqrt", "cos")}
    return tuple(sorted(g.items(), key=lambda x: x[0].id))


def _mono_div(m, g):
    d = dict(m)
    for a, e in g:
        d[a] = d.get(a, 0) - e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def div(a, b):
    return mul(a, inv(b))


def ipow(t, n):
    if n < 0:
        return ipow(inv(t), -n)
    if n == 0:
        return ONE
    if t.op == "poly" and len(t.args[0]) > 1 and (n > 6 or len(t.args[0]) ** n > 400):
        return mk("pow", t, q(n))
    if t.op not in ("poly", "q", "I", "sqrt", "cos"):
        if n == 1:
            return t
        return from_poly({((t, n),): F(1)})
    if t.op == "q":
        return q(t.args[0] ** n) if abs(n) < 4000 else mk("pow", t, q(n))
    r = ONE
    for _ in range(n):
        r = mul(r, t)
    return r


def as_num(t):
    """Booleans used arithmetically count as 0/1."""
    if t.op in _NONNUM or t.op in ("ite", "sym", "elem", "opaque"):
        if is_bool(t):
            return ite(t, ONE, ZERO)
    return t


def power(b, e):
    b = as_num(b)
    e = as_num(e)
    if e.op == "q":
        x = e.args[0]
        if x.denominator == 1:
            return ipow(b, int(x))
        if x == F(1, 2):
            return sqrt(b)
        if x == F(-1, 2):
            return inv(sqrt(b))
        return mk("pow", b, e)
    if b is ONE:
        return ONE
    if e.op == "ite":
        # a small conditional exponent: push the power into the gate
        return ite(e.args[0], power(b, e.args[1]), power(b, e.args[2]))
    if b.op == "q":
        p = to_poly(e)
        c = p.get((), F(0))
        k = int(c.numerator // c.denominator)
        if k:
            p = dict(p)
            p[()] = c - k
            return mul(q(b.args[0] ** k), power(b, from_poly(p)))
        # pull integer content: 2**(2l) = 4**l
        if e.op == "poly":
            cont, prim = _primitive(e)
            if cont.denominator == 1 and cont.numerator > 1 and cont.numerator <= 8 and is_int(prim):
                return mk("pow", q(b.args[0] ** cont.numerator), prim)
            if cont < 0 and b.args[0] != 0:
                return power(q(1 / b.args[0]), neg(e)) if False else inv(power(b, neg(e)))
        return mk("pow", b, e)
    return mk("pow", b, e)


def sqrt(t):
    t = as_num(t)
    if t.op == "q":
        x = t.args[0]
        if x >= 0:
            n, d = _isqrt(x.numerator), _isqrt(x.denominator)
            if n is not None and d is not None:
                return q(F(n, d))
            # extract square part
            k = 1
            for s in (2, 3, 5, 7):
                while x.numerator % (s * s) == 0:
                    x = x / (s * s)
                    k *= s
            if x.denominator != 1:
                return mul(q(F(k, x.denominator)), sqrt(q(x.numerator * x.denominator)))
            return mul(q(k), mk("sqrt", q(x)))
        return mk("sqrt", t)
    if t.op == "poly":
        items = t.args[0]
        c, prim = _primitive(t)
        c = abs(c)
        n, d = _isqrt(c.numerator), _isqrt(c.denominator)
        if c != 1 and n is not None and d is not None:
            return mul(q(F(n, d)), sqrt(mul(q(1 / c), t)))
        if len(items) == 1:
            m, c = items[0]
            # x^2k -> |x|^k ; known non-negative atoms split
            if c == 1:
                rest = []
                out = ONE
                for a, e in m:
                    if e % 2 == 0:
                        out = mul(out, ipow(absv(a), e // 2))
                    elif a is PI or _sym_nonneg(a):
                        out = mul(out, ipow(mk("sqrt", a), e))
                    else:
                        rest.append((a, e))
                if out is not ONE:
                    if not rest:
                        return out
                    return mul(out, mk("sqrt", from_poly({tuple(rest): F(1)})))
            elif c > 0 and all(a is PI or _sym_nonneg(a) for a, _ in m):
                return mul(sqrt(q(c)), sqrt(from_poly({m: F(1)})))
        return mk("sqrt", t)
    return mk("sqrt", t)


def _sym_nonneg(a):
    if a.op in ("sqrt", "abs"):
        return True
    if a.op == "elem":
        a = a.args[0]
    return SYM_PROPS.get(a, {}).get("sign") in ("pos", "nonneg")


def _isqrt(n):
    from math import isqrt

    r = isqrt(n)
    return r if r * r == n else None


# ----------------------------------------------------------------------------------------------
# elementary functions


def _lead_negative(t):
    if t.op == "q":
        return t.args[0] < 0
    if t.op == "poly":
        return t.args[0][0][1] < 0
    return False


_PI_MONO = ((PI, 1),)


def _pi_shift(t):
    """Return (rest, k) with t = rest + k*pi, k rational pulled out entirely."""
    p = to_poly(t)
    k = p.get(_PI_MONO, F(0))
    if k:
        p = dict(p)
        del p[_PI_MONO]
    return from_poly(p), k


def _trig(t, phase):
    """sin(t + phase*pi/2) in normal form."""
    rest, k = _pi_shift(t)
    h = F(2 * k + phase)  # number of half-pi
    if _lead_negative(rest):
        rest, h = neg(rest), 2 - h
    n = h.numerator // h.denominator
    frac = h - n
    if rest is ZERO and frac in (0, F(1, 3), F(1, 2), F(2, 3)):
        # exact values at multiples of pi/6, pi/4, pi/3
        r2, r3 = mk("sqrt", q(2)), mk("sqrt", q(3))
        s = {F(0): ZERO, F(1, 3): HALF, F(1, 2): mul(HALF, r2), F(2, 3): mul(HALF, r3)}[frac]
        c = {F(0): ONE, F(1, 3): mul(HALF, r3), F(1, 2): mul(HALF, r2), F(2, 3): HALF}[frac]
        return [s, c, neg(s), neg(c)][n % 4]
    arg = add(rest, mul(q(frac / 2), PI)) if frac else rest
    r = mk("sin" if n % 2 == 0 else "cos", arg)
    return r if n % 4 < 2 else neg(r)


def sin(t):
    t = as_num(t)
    if t.op == "ite":
        return ite(t.args[0], sin(t.args[1]), sin(t.args[2]))
    return _trig(t, 0)


def cos(t):
    t = as_num(t)
    if t.op == "ite":
        return ite(t.args[0], cos(t.args[1]), cos(t.args[2]))
    return _trig(t, 1)


def exp(t):
    t = as_num(t)
    if t is ZERO:
        return ONE
    # exp(i x) with real x
    p = to_poly(t)
    if p and all(dict(m).get(IMAG, 0) == 1 for m in p):
        x = from_poly({_mono_div(m, ((IMAG, 1),)): c for m, c in p.items()})
        return add(cos(x), mul(IMAG, sin(x)))
    re = {m: c for m, c in p.items() if not dict(m).get(IMAG, 0)}
    im = {m: c for m, c in p.items() if dict(m).get(IMAG, 0)}
    if re and im:
        return mul(exp(from_poly(re)), exp(from_poly(im)))
    return mk("exp", t)


def arccos(t):
    t = as_num(t)
    if t.op == "q":
        tbl = {F(0): mul(HALF, PI), F(1): ZERO, F(-1): PI, F(1, 2): mul(q(F(1, 3)), PI),
               F(-1, 2): mul(q(F(2, 3)), PI)}
        if t.args[0] in tbl:
            return tbl[t.args[0]]
    if _lead_negative(t):
        return sub(PI, arccos(neg(t)))
    return mk("arccos", t)


def arcsin(t):
    t = as_num(t)
    # arcsin(x) = pi/2 - arccos(x)
    return sub(mul(HALF, PI), arccos(t))


def arctan2(y, x):
    return mk("arctan2", as_num(y), as_num(x))


def arctan(x):
    x = as_num(x)
    if _lead_negative(x):
        return neg(arctan(neg(x)))
    return mk("arctan2", x, ONE)


def log2(t):
    t = as_num(t)
    if t.op == "q" and t.args[0] > 0:
        x = t.args[0]
        if x.denominator == 1 and (x.numerator & (x.numerator - 1)) == 0:
            return q(x.numerator.bit_length() - 1)
        if x.numerator == 1 and (x.denominator & (x.denominator - 1)) == 0:
            return q(-(x.denominator.bit_length() - 1))
    return mk("log2", t)


def log(t):
    t = as_num(t)
    if t is ONE:
        return ZERO
    return mk("log", t)


def absv(t):
    t = as_num(t)
    if t.op == "q":
        return q(abs(t.args[0]))
    if t.op == "ite":
        return ite(t.args[0], absv(t.args[1]), absv(t.args[2]))
    p = to_poly(t)
    if any(dict(m).get(IMAG, 0) for m in p):
        # complex modulus
        re = from_poly({m: c for m, c in p.items() if not dict(m).get(IMAG, 0)})
        im = from_poly({_mono_div(m, ((IMAG, 1),)): c for m, c in p.items() if dict(m).get(IMAG, 0)})
        return sqrt(add(mul(re, re), mul(im, im)))
    if len(p) == 1:
        (m, c), = p.items()
        out = q(abs(c))
        for a, e in m:
            if e % 2 == 0 or a is PI or _sym_nonneg(a) or _nonneg_quick(a):
                out = mul(out, from_poly({((a, e),): F(1)}))
            elif a.op == "inv":
                out = mul(out, inv(absv(a.args[0])) if e == 1 else ipow(inv(absv(a.args[0])), e))
            else:
                out = mul(out, from_poly({((mk("abs", a), e),): F(1)}))
        return out
    if _nonneg_quick(t):
        return t
    low = _common_positive([t])
    if low:
        m = from_poly({low: F(1)})
        return mul(m, absv(div(t, m)))
    c, prim = _primitive(t)
    return mul(q(abs(c)), mk("abs", prim))


def sgn(t):
    t = as_num(t)
    if t.op == "q":
        x = t.args[0]
        return q((x > 0) - (x < 0))
    if t.op == "ite":
        return ite(t.args[0], sgn(t.args[1]), sgn(t.args[2]))
    cv = const_value(t)
    if cv is not None and abs(cv) > 1e-9:
        return q(1 if cv > 0 else -1)
    if t.op == "poly":
        items = t.args[0]
        if len(items) == 1:
            m, c = items[0]
            out = q(1 if c > 0 else -1)
            for a, e in m:
                if a is PI or SYM_PROPS.get(a, {}).get("sign") == "pos":
                    continue
                if e % 2 == 0:
                    out = mul(out, ipow(mk("sgn", a), 2))
                else:
                    out = mul(out, mk("sgn", a))
            return out
        c, prim = _primitive(t)
        return mul(q(1 if c > 0 else -1), mk("sgn", prim))
    if t is PI:
        return ONE
    return mk("sgn", t)


def floor(t):
    t = as_num(t)
    if t.op == "q":
        x = t.args[0]
        return q(x.numerator // x.denominator)
    if is_int(t):
        return t
    if t.op == "ite":
        return ite(t.args[0], floor(t.args[1]), floor(t.args[2]))
    # pull out integer-valued monomials
    p = to_poly(t)
    ints, rest = {}, {}
    for m, c in p.items():
        if not m:
            n = c.numerator // c.denominator
            if n:
                ints[m] = F(n)
            if c != n:
                rest[m] = c - n
        elif c.denominator == 1 and is_int(from_poly({m: F(1)})):
            ints[m] = c
        elif is_int(from_poly({m: F(1)})) and abs(c) > 1:
            n = c.numerator // c.denominator
            ints[m] = F(n)
            rest[m] = c - n
        else:
            rest[m] = c
    if not rest:
        return t
    cv = const_value(t)
    if cv is not None and abs(cv) < 1e9 and abs(cv - round(cv)) > 1e-6:
        return q(int(cv // 1))
    if set(rest) == {()}:
        return from_poly(ints)
    r = mk("floor", from_poly(rest))
    if ints:
        return add(from_poly(ints), r)
    return r


def ceil(t):
    return neg(floor(neg(t)))


def trunc(t):
    t = as_num(t)
    if is_int(t):
        return t
    if t.op == "q":
        x = t.args[0]
        return q(int(x))
    cv = const_value(t)
    if cv is not None and abs(cv) < 1e9 and abs(cv - round(cv)) > 1e-6:
        return q(int(cv))
    return mk("trunc", t)


def mod(a, b):
    return sub(a, mul(b, floor(div(a, b))))


def is_const_scaled(a, least):
    """Every coefficient of the polynomial a has a denominator above least."""
    return all(c.denominator > least for c in to_poly(a).values())


def floordiv(a, b):
    return floor(div(a, b))


def rnd(t):
    t = as_num(t)
    if t.op == "q":
        return q(round(t.args[0]))
    if is_int(t):
        return t
    return mk("round", t)


def _common_positive(ts):
    """Largest monomial of positive symbols dividing every monomial of every term."""
    low = None
    for t in ts:
        for m, _ in to_poly(t).items():
            d = {a: e for a, e in m if a.op == "sym" and SYM_PROPS.get(a, {}).get("sign") == "pos"}
            if low is None:
                low = d
            else:
                low = {a: min(low.get(a, 0), d.get(a, 0)) for a in set(low) | set(d)}
    return tuple(sorted(((a, e) for a, e in (low or {}).items() if e), key=lambda x: x[0].id))


def vmax(*ts):
    ts = [as_num(t) for t in ts]
    flat = []
    for t in ts:
        if t.op == "max":
            flat.extend(t.args)
        else:
            flat.append(t)
    const = None
    rest = []
    for t in flat:
        if t.op == "q":
            const = t if const is None or t.args[0] > const.args[0] else const
        elif t not in rest:
            rest.append(t)
    if const is not None:
        rest.append(const)
    # drop arguments that are a constant below another
    out = []
    for i, t in enumerate(rest):
        dom = False
        for j, u in enumerate(rest):
            if i != j:
                d = sub(t, u)
                if d.op == "q":
                    dom = dom or d.args[0] < 0 or (d.args[0] == 0 and j < i)
                elif t.op == "q" and _nonneg_quick(neg(d)):
                    dom = True
                else:
                    cv = const_value(d)
                    dom = dom or (cv is not None and cv < -1e-9)
        if not dom:
            out.append(t)
    if len(out) == 1:
        return out[0]
    # common positive content
    g = None
    for t in out:
        for _, c in to_poly(t).items():
            c = abs(c)
            g = c if g is None else F(gcd(g.numerator * c.denominator, c.numerator * g.denominator),
                                      g.denominator * c.denominator)
    if g is not None and g not in (0, 1):
        return mul(q(g), vmax(*[mul(q(1 / g), t) for t in out]))
    low = _common_positive(out)
    if low:
        m = from_poly({low: F(1)})
        return mul(m, vmax(*[div(t, m) for t in out]))
    out.sort(key=lambda x: x.id)
    return mk("max", *out)


def vmin(*ts):
    return neg(vmax(*[neg(t) for t in ts]))


def conj(t):
    p = to_poly(as_num(t))
    return from_poly({m: (-c if dict(m).get(IMAG, 0) else c) for m, c in p.items()})


def real(t):
    p = to_poly(as_num(t))
    return from_poly({m: c for m, c in p.items() if not dict(m).get(IMAG, 0)})


def imag(t):
    p = to_poly(as_num(t))
    return from_poly({_mono_div(m, ((IMAG, 1),)): c for m, c in p.items() if dict(m).get(IMAG, 0)})


# ----------------------------------------------------------------------------------------------
# booleans


def _cmp_norm(d):
    """Scale a difference by a positive rational."""
    if d.op == "poly" and len(d.args[0]) > 1:
        low = _common_positive([d])
        if low:
            d = div(d, from_poly({low: F(1)}))
    if d.op == "q":
        return d
    if d.op == "poly":
        c, prim = _primitive(d)
        return prim if c > 0 else neg(prim)
    return d


def _mk_lt(d):
    if d.op == "q":
        return boolean(d.args[0] < 0)
    if is_int(d):
        return _mk_le(add(d, ONE))
    n = _cmp_norm(d)
    if is_int(n):
        return _mk_le(add(n, ONE))
    return mk("lt", n)


def _mk_le(d):
    if d.op == "q":
        return boolean(d.args[0] <= 0)
    if d.op == "poly":
        if is_int(d):
            lo, hi = _whole_bounds(d)
            if hi is not None and hi <= 0:
                return TRUE
            if lo is not None and lo > 0:
                return FALSE
            g = 0
            const = F(0)
            for m, c in d.args[0]:
                if m:
                    g = gcd(g, abs(c.numerator))
                else:
                    const = c
            if g > 1:
                k = -((-const) / g // 1)
                p = {m: c / g for m, c in d.args[0] if m}
                p[()] = F(k)
                return mk("le", from_poly(p))
            return mk("le", d)
        n = _cmp_norm(d)
        return _mk_le(n) if n is not d and is_int(n) else mk("le", n)
    return mk("le", d)


def _whole_bounds(d):
    """Lower and upper bound of a linear combination of whole symbols that are positive or non-negative."""
    lo = hi = F(0)
    for m, c in d.args[0]:
        if not m:
            least = c
            unbounded = False
        else:
            if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "sym":
                return None, None
            sign = SYM_PROPS.get(m[0][0], {}).get("sign")
            if sign not in ("pos", "nonneg"):
                return None, None
            least = c if sign == "pos" else F(0)
            unbounded = True
        if lo is not None:
            lo = None if unbounded and c < 0 else lo + least
        if hi is not None:
            hi = None if unbounded and c > 0 else hi + least
    return lo, hi


def lt(a, b):
    a, b = as_num(a), as_num(b)
    for x, y, r in ((a, b, True),):
        if x is INF:
            return FALSE
        if y is INF:
            return TRUE
        if x.op == "neginf":
            return TRUE
        if y.op == "neginf":
            return FALSE
    if a.op == "ite" and b.op == "q" and a.args[1].op == "q" and a.args[2].op == "q":
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == "ite" and a.op == "q" and b.args[1].op == "q" and b.args[2].op == "q":
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    d = sub(a, b)
    if d.op == "q":
        return boolean(d.args[0] < 0)
    s = _static_sign(d)
    if s is not None:
        if s <= {-1}:
            return TRUE
        if s <= {0, 1}:
            return FALSE
    return _mk_lt(d)


def le(a, b):
    a, b = as_num(a), as_num(b)
    if b is INF or a.op == "neginf":
        return TRUE
    if a is INF or b.op == "neginf":
        return FALSE
    if a.op == "ite" and b.op == "q" and a.args[1].op == "q" and a.args[2].op == "q":
        return ite(a.args[0], le(a.args[1], b), le(a.args[2], b))
    if b.op == "ite" and a.op == "q" and b.args[1].op == "q" and b.args[2].op == "q":
        return ite(b.args[0], le(a, b.args[1]), le(a, b.args[2]))
    d = sub(a, b)
    if d.op == "q":
        return boolean(d.args[0] <= 0)
    s = _static_sign(d)
    if s is not None:
        if s <= {-1, 0}:
            return TRUE
        if s <= {1}:
            return FALSE
    return _mk_le(d)


def _static_sign(d):
    """Sign of a constant built from pi/sqrt of rationals (numerically, with margin)."""
    v = const_value(d)
    if v is None:
        return None
    if v > 1e-9:
        return {1}
    if v < -1e-9:
        return {-1}
    return None


def const_value(t):
    """Float value of a closed constant over pi, sqrt, trig ... or None."""
    import math

    m = t._memo
    if m is None:
        m = t._memo = {}
    if "cv" in m:
        return m["cv"]
    v = None
    try:
        op = t.op
        if op == "q":
            v = float(t.args[0])
        elif op == "pi":
            v = math.pi
        elif op == "poly":
            v = 0.0
            for mono, c in t.args[0]:
                x = float(c)
                for a, e in mono:
                    y = const_value(a)
                    if y is None:
                        x = None
                        break
                    x *= y ** e
                if x is None:
                    v = None
                    break
                v += x
        elif op in ("sqrt", "sin", "cos", "exp", "arccos", "inv", "abs", "log", "log2"):
            y = const_value(t.args[0])
            if y is not None:
                v = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "exp": math.exp,
                     "arccos": math.acos, "inv": lambda z: 1 / z, "abs": abs, "log": math.log,
                     "log2": math.log2}[op](y)
    except (ValueError, OverflowError, ZeroDivisionError):
        v = None
    m["cv"] = v
    return v


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    """Python == on scalars."""
    if a is b:
        return TRUE
    if a.op == "ite" and _scalar_const(b) and _ite_leaves_const(a):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and _scalar_const(a) and _ite_leaves_const(b):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if is_bool(a) and is_bool(b):
        return iff(a, b)
    an, bn = is_num(a) or is_bool(a), is_num(b) or is_bool(b)
    if an and bn:
        if a in (INF, NAN) or b in (INF, NAN):
            return FALSE
        d = sub(as_num(a), as_num(b))
        if d.op == "q":
            return boolean(d.args[0] == 0)
        v = const_value(d)
        if v is not None and abs(v) > 1e-9:
            return FALSE
        if is_int_combination(d) is False:
            return FALSE
        if d.op == "poly":
            _, d = _primitive(d)
        return mk("eqz", d)
    asr, bsr = is_string(a), is_string(b)
    if a.op == "str" and b.op == "str":
        return boolean(a.args[0] == b.args[0])
    if (an and bsr) or (bn and asr):
        return FALSE
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        if is_num(o) or is_bool(o) or is_string(o):
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("same", a, b)


def _scalar_const(t):
    return t.op in ("q", "str", "none", "bool")


def _ite_leaves_const(t):
    if t.op == "ite":
        return _ite_leaves_const(t.args[1]) and _ite_leaves_const(t.args[2])
    return _scalar_const(t)


def is_int_combination(d):
    """False when d = integer-valued + non-integer rational constant (never zero)."""
    p = to_poly(d)
    c = p.get((), F(0))
    if c.denominator == 1:
        return True
    rest = dict(p)
    rest.pop((), None)
    return not is_int(from_poly(rest))


def ne(a, b):
    return lnot(eq(a, b))


def lnot(t):
    op = t.op
    if op == "bool":
        return boolean(not t.args[0])
    if op == "not":
        return t.args[0]
    if op == "lt":
        return _mk_le(neg(t.args[0]))
    if op == "le":
        return _mk_lt(neg(t.args[0]))
    if op == "and":
        return lor(*[lnot(a) for a in t.args])
    if op == "or":
        return land(*[lnot(a) for a in t.args])
    if op == "forall":
        return mk("exists", t.args[0], relam(t.args[1], lnot))
    if op == "exists":
        return mk("forall", t.args[0], relam(t.args[1], lnot))
    if op == "ite":
        return ite(t.args[0], lnot(t.args[1]), lnot(t.args[2]))
    return mk("not", t)


def relam(lam, fn):
    """Apply fn to the body of a lambda."""
    v = fresh("b", "int", sign="nonneg")
    return abstract(v, fn(apply_lam(lam, v)))


def land(*ts):
    out = []
    seen = set()
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t.op == "and":
            stack.extend(t.args[::-1])
            continue
        if t is TRUE or t in seen:
            continue
        if t is FALSE:
            return FALSE
        seen.add(t)
        out.append(t)
    for t in out:
        if lnot(t) in seen:
            return FALSE
        # a<0 and a<=0 ; a==0 and a<=0
        if t.op == "le" and _mk_lt(t.args[0]) in seen:
            seen.discard(t)
        elif t.op == "le" and _eqz_of(t.args[0]) in seen:
            seen.discard(t)
    out = [t for t in out if t in seen]
    # a<=0 and -a<=0  ->  a==0
    for t in out:
        if t.op == "le" and t in seen:
            o = _mk_le(neg(t.args[0]))
            if o in seen and o is not t:
                seen.discard(t)
                seen.discard(o)
                e = _eqz_of(t.args[0])
                return land(e, *[x for x in out if x in seen])
        if t.op == "eqz" and (_mk_lt(t.args[0]) in seen or _mk_lt(neg(t.args[0])) in seen):
            return FALSE
        if t.op == "lt" and _mk_lt(neg(t.args[0])) in seen:
            return FALSE
    # absorption: a and (a or b) -> a
    final = []
    for t in out:
        if t.op == "or" and any(a in seen for a in t.args):
            continue
        final.append(t)
    out = final
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk("and", *out)


def _eqz_of(d):
    if d.op == "poly":
        _, d = _primitive(d)
    return mk("eqz", d)


def lor(*ts):
    out = []
    seen = set()
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t.op == "or":
            stack.extend(t.args[::-1])
            continue
        if t is FALSE or t in seen:
            continue
        if t is TRUE:
            return TRUE
        seen.add(t)
        out.append(t)
    for t in out:
        if lnot(t) in seen:
            return TRUE
        if t.op == "lt" and _mk_le(t.args[0]) in seen:
            seen.discard(t)
        elif t.op == "eqz" and (_mk_le(t.args[0]) in seen or _mk_le(neg(t.args[0])) in seen):
            seen.discard(t)
    for t in out:
        # a<0 or a==0 -> a<=0
        if t.op == "lt" and t in seen:
            e = _eqz_of(t.args[0])
            if e in seen:
                seen.discard(t)
                seen.discard(e)
                return lor(_mk_le(t.args[0]), *[x for x in out if x in seen])
            o = _mk_lt(neg(t.args[0]))
            if o in seen and o is not t:
                seen.discard(t)
                seen.discard(o)
                return lor(lnot(e), *[x for x in out if x in seen])
        if t.op == "le" and _mk_le(neg(t.args[0])) in seen and _mk_le(neg(t.args[0])) is not t:
            return TRUE
    out = [t for t in out if t in seen]
    final = []
    for t in out:
        if t.op == "and" and any(a in seen for a in t.args):
            continue
        final.append(t)
    out = final
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk("or", *out)


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return lnot(b)
    if b is FALSE:
        return lnot(a)
    if lnot(a) is b:
        return FALSE
    return lor(land(a, b), land(lnot(a), lnot(b)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    # booleans become connectives
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
        return lor(land(c, a), land(lnot(c), b))
    n = lnot(c)
    if _flip(c, n):
        c, n, a, b = n, c, b, a
    # nested gates with the same condition
    a = assume(a, c)
    b = assume(b, n)
    if a is b:
        return a
    return mk("ite", c, a, b)


def _flip(c, n):
    """Canonical polarity: prefer eqz over not-eqz, smaller id otherwise."""
    rank = {"not": 1, "or": 1, "exists": 1}
    rc, rn = rank.get(c.op, 0), rank.get(n.op, 0)
    if rc != rn:
        return rc > rn
    return c.id > n.id


def assume(t, c):
    """Cheap simplification of top-level gates under a known condition."""
    for _ in range(20):
        if t.op != "ite":
            return t
        k = t.args[0]
        if k is c:
            t = t.args[1]
        elif lnot(k) is c:
            t = t.args[2]
        else:
            return t
    return t


# ----------------------------------------------------------------------------------------------
# binders


def bv(h):
    return mk("sym", "@%d" % h, "int")


def abstract(v, body):
    """lambda v. body, canonical up to alpha-renaming."""
    h = body.height + 1
    b = bv(h)
    SYM_PROPS.setdefault(b, {"sign": "nonneg"})
    return mk("lam", h, subst(body, {v: b}))


def apply_lam(lam, arg):
    return subst(lam.args[1], {bv(lam.args[0]): arg})


def subst(t, m):
    memo = {}
    return _subst(t, m, memo)


def _contains_any(t, keys, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t in keys:
        memo[t] = True
        return True
    r = False
    for a in iter_children(t):
        if _contains_any(a, keys, memo):
            r = True
            break
    memo[t] = r
    return r


def iter_children(t):
    if t.op == "poly":
        for m, _ in t.args[0]:
            for a, _ in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a


def _subst(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is not None:
        memo[t] = r
        return r
    op = t.op
    if op in ("q", "bool", "none", "pi", "I", "sym", "str", "arrsym", "opaque", "inf", "nan"):
        memo[t] = t
        return t
    if op == "poly":
        changed = False
        parts = []
        for mono, c in t.args[0]:
            fs = []
            for a, e in mono:
                na = _subst(a, m, memo)
                if na is not a:
                    changed = True
                fs.append((na, e))
            parts.append((fs, c))
        if not changed:
            r = t
        else:
            terms = []
            for fs, c in parts:
                x = [q(c)]
                for a, e in fs:
                    x.append(ipow(a, e))
                terms.append(mul(*x))
            r = add(*terms)
    else:
        args = []
        changed = False
        for a in t.args:
            if isinstance(a, T):
                na = _subst(a, m, memo)
                if na is not a:
                    changed = True
                args.append(na)
            else:
                args.append(a)
        r = rebuild(op, args) if changed else t
    memo[t] = r
    return r


def rebuild(op, args):
    """Re-apply smart constructors."""
    fn = _BUILD.get(op)
    if fn is not None:
        return fn(*args)
    return mk(op, *args)


def _b_lam(h, body):
    # children may have changed height; renormalise
    v = bv(h)
    tmp = fresh("l", "int", sign="nonneg")
    return abstract(tmp, subst(body, {v: tmp}))


def forall(n, lam):
    body = lam.args[1]
    if body is TRUE:
        return TRUE
    if n.op == "q":
        n0 = n.args[0]
        if n0 <= 0:
            return TRUE
        if n0 <= 64:
            return land(*[apply_lam(lam, q(i)) for i in range(int(n0))])
    if not depends(body, bv(lam.args[0])):
        return lor(le(n, ZERO), body)
    if body.op == "and":
        return land(*[forall(n, mk_lam_like(lam, p)) for p in body.args])
    if body.op == "or":
        inv_, dep = [], []
        v = bv(lam.args[0])
        for p in body.args:
            (dep if depends(p, v) else inv_).append(p)
        if inv_:
            return lor(*(inv_ + [forall(n, mk_lam_like(lam, lor(*dep)))]))
    return mk("forall", n, lam)


def exists(n, lam):
    return lnot(forall(n, relam(lam, lnot)))


def mk_lam_like(lam, body):
    tmp = fresh("l", "int", sign="nonneg")
    return abstract(tmp, subst(body, {bv(lam.args[0]): tmp}))


def rewrite(t, f, memo=None):
    """Bottom-up rewriting; f maps a term to its replacement (or itself)."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "lam":
        v = bv(t.args[0])
        tmp = fresh("l", "int", sign="nonneg")
        b = subst(t.args[1], {v: tmp})
        nb = rewrite(b, f, memo)
        r = t if nb is b else abstract(tmp, nb)
    elif op == "poly":
        parts, changed = [], False
        for mono, c in t.args[0]:
            x = [q(c)]
            for a, e in mono:
                na = rewrite(a, f, memo)
                changed = changed or na is not a
                x.append(ipow(na, e))
            parts.append(x)
        r = add(*[mul(*x) for x in parts]) if changed else t
    else:
        args = [rewrite(a, f, memo) if isinstance(a, T) else a for a in t.args]
        if any(x is not y for x, y in zip(args, t.args)):
            r = rebuild(op, args)
        else:
            r = t
    r = f(r)
    memo[t] = r
    return r


def depends(t, v):
    return _contains_any(t, {v}, {})


def vsum(n, lam):
    body = lam.args[1]
    v = bv(lam.args[0])
    if body is ZERO:
        return ZERO
    if n.op == "q" and n.args[0] <= 64:
        return add(ZERO, *[apply_lam(lam, q(i)) for i in range(max(0, int(n.args[0])))])
    if not depends(body, v):
        return mul(n, body)
    p = to_poly(as_num(body))
    outs = []
    for m, c in p.items():
        dep, ind = [], []
        for a, e in m:
            (dep if depends(a, v) else ind).append((a, e))
        coef = from_poly({tuple(ind): c})
        if not dep:
            outs.append(mul(coef, n))
        else:
            l2 = mk_lam_like(lam, from_poly({tuple(dep): F(1)}))
            b2 = l2.args[1]
            if b2 is bv(l2.args[0]):
                outs.append(mul(coef, n, sub(n, ONE), HALF))
            else:
                outs.append(mul(coef, mk("sum", n, l2)))
    return add(*outs)


def vprod(n, lam):
    if n.op == "q" and n.args[0] <= 64:
        return mul(ONE, *[apply_lam(lam, q(i)) for i in range(max(0, int(n.args[0])))])
    if lam.args[1] is ONE:
        return ONE
    return mk("prod", n, lam)


def amax(n, lam):
    body = lam.args[1]
    if n.op == "q" and 1 <= n.args[0] <= 64:
        return vmax(*[apply_lam(lam, q(i)) for i in range(int(n.args[0]))])
    if not depends(body, bv(lam.args[0])):
        return body
    if body.op == "poly":
        c, prim = _primitive(body)
        if abs(c) != 1:
            return mul(q(abs(c)), amax(n, mk_lam_like(lam, mul(q(1 / abs(c)), body))))
    return mk("amax", n, lam)


def amin(n, lam):
    return neg(amax(n, relam(lam, neg)))


def rank(n, lam, k):
    """The k-th smallest of the n values of lam."""
    if k is ZERO:
        return amin(n, lam)
    if k is sub(n, ONE):
        return amax(n, lam)
    if not depends(lam.args[1], bv(lam.args[0])):
        return lam.args[1]
    return mk("rank", n, lam, k)


def argrank(n, lam, k):
    """The (first unused) position of the k-th smallest of the n values of lam."""
    return mk("argrank", n, lam, k)


def nth(n, lam, i):
    """Index of the i-th position below n where lam holds."""
    if lam.args[1] is TRUE:
        return i
    if n.op == "q" and i.op == "q" and n.args[0] <= 4096:
        cnt = -1
        for k in range(int(n.args[0])):
            b = apply_lam(lam, q(k))
            if b is TRUE:
                cnt += 1
                if cnt == i.args[0]:
                    return q(k)
            elif b is not FALSE:
                break
    return mk("nth", n, lam, i)


def elem(a, *idx):
    return mk("elem", a, *idx)


def cat(*ps):
    out = []
    for p in ps:
        if p.op == "cat":
            parts = p.args
        else:
            parts = (p,)
        for x in parts:
            if x.op == "str":
                if not x.args[0]:
                    continue
                if out and out[-1].op == "str":
                    out[-1] = string(out[-1].args[0] + x.args[0])
                    continue
            out.append(x)
    if not out:
        return string("")
    if len(out) == 1 and is_string(out[0]):
        return out[0]
    return mk("cat", *out)


def tostr(t):
    if is_string(t):
        return t
    if t.op == "ite":
        return ite(t.args[0], tostr(t.args[1]), tostr(t.args[2]))
    if t is NONE:
        return string("None")
    if t.op == "bool":
        return string(str(t.args[0]))
    return mk("tostr", t)


def bit(k, i):
    if k.op == "q" and i.op == "q":
        return q((int(k.args[0]) >> int(i.args[0])) & 1)
    return mk("bit", k, i)


def isclose(a, b, rtol, atol):
    """|a-b| <= atol + rtol*|b|"""
    return le(absv(sub(a, b)), add(atol, mul(rtol, absv(b))))


_BUILD = {
    "sqrt": sqrt, "sin": sin, "cos": cos, "exp": exp, "arccos": arccos, "log2": log2, "log": log,
    "abs": absv, "sgn": sgn, "floor": floor, "trunc": trunc, "round": rnd, "max": vmax,
    "pow": power, "inv": inv, "arctan2": arctan2,
    "lt": lambda d: lt(d, ZERO), "le": lambda d: le(d, ZERO), "eqz": lambda d: eq(d, ZERO),
    "same": eq, "not": lnot, "and": land, "or": lor, "ite": ite, "lam": _b_lam,
    "forall": forall, "exists": exists, "sum": vsum, "prod": vprod, "amax": amax, "nth": nth, "rank": rank,
    "cat": cat, "tostr": tostr, "bit": bit,
}


# ----------------------------------------------------------------------------------------------
# printing


def show(t, depth=0):
    if depth > 14:
        return "..."
    op = t.op
    d = depth + 1
    if op == "q":
        return str(t.args[0])
    if op == "sym":
        return t.args[0]
    if op == "arrsym":
        return t.args[0]
    if op == "pi":
        return "pi"
    if op == "I":
        return "i"
    if op == "bool":
        return str(t.args[0])
    if op == "none":
        return "None"
    if op == "str":
        return repr(t.args[0])
    if op == "poly":
        parts = []
        for m, c in t.args[0]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c) if c.denominator == 1 or not m else "(%s)" % c)
            for a, e in m:
                s = show(a, d)
                fs.append(s if e == 1 else "%s^%s" % (s, e))
            parts.append("*".join(fs))
        return "(" + " + ".join(parts) + ")"
    if op == "lt":
        return "[%s < 0]" % show(t.args[0], d)
    if op == "le":
        return "[%s <= 0]" % show(t.args[0], d)
    if op == "eqz":
        return "[%s == 0]" % show(t.args[0], d)
    if op == "lam":
        return "\\@%d. %s" % (t.args[0], show(t.args[1], d))
    if op == "elem":
        return "%s[%s]" % (show(t.args[0], d), ",".join(show(a, d) for a in t.args[1:]))
    if op == "ite":
        return "if(%s, %s, %s)" % tuple(show(a, d) for a in t.args)
    return "%s(%s)" % (op, ", ".join(show(a, d) if isinstance(a, T) else str(a) for a in t.args))


def atoms(t, pred, out=None, seen=None):
    """All subterms satisfying pred."""
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.append(t)
    for c in iter_children(t):
        atoms(c, pred, out, seen)
    return out


def size(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return 0
    seen.add(t)
    return 1 + sum(size(c, seen) for c in iter_children(t))


def cancel_inv(x):
    """Rewrite P * inv(D) + rest as Q + rest when D divides P."""
    for _ in range(6):
        p = to_poly(x)
        invs = {a for m in p for a, e in m if a.op == "inv" and e == 1}
        for a in invs:
            d = to_poly(a.args[0])
            num = {tuple(y for y in m if y[0] is not a): c for m, c in p.items() if dict(m).get(a) == 1}
            quo = _divide(num, d)
            if quo is not None:
                x = add(from_poly({m: c for m, c in p.items() if dict(m).get(a) != 1}), quo)
                break
        else:
            return x
    return x


def _divide(num, d):
    """Exact quotient of polynomials, or None (lexicographic leading terms)."""
    atoms = sorted({a for p in (num, d) for m in p for a, _ in m}, key=lambda a: a.id)
    key = lambda m: tuple(dict(m).get(a, 0) for a in atoms)
    lead = max(d, key=key)
    out, rest = ZERO, from_poly(dict(num))
    den = from_poly(dict(d))
    for _ in range(60):
        if rest is ZERO:
            return out
        p = to_poly(rest)
        if any(a not in atoms for m in p for a, _ in m):
            return None
        m = max(p, key=key)
        qm = div(from_poly({m: p[m]}), from_poly({lead: d[lead]}))
        out = add(out, qm)
        new = sub(rest, mul(qm, den))
        if new is not ZERO and max((key(y) for y in to_poly(new)), default=()) >= key(m):
            return None
        rest = new
    return None
