"""Valuation of extracted terms.

A difference between two normal forms is only reported when a valuation of the free symbols that
satisfies the scenario's assumptions makes the two terms differ.  What is evaluated is the term
extracted by the analysis (never repository code).
"""

import random
from fractions import Fraction as F

import mpmath

from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, q

mp = mpmath.mp
mp.dps = 40
TINY = mpmath.mpf(10) ** -28
CMP = mpmath.mpf(10) ** -12
REL = mpmath.mpf(10) ** -9
LIMIT = 4200


class Unknown(Exception):
    """The term contains something the analysis does not understand."""


class Undefined(Exception):
    """The value is not a finite number (division by zero, root of a negative number ...)."""


def mpf(x):
    if isinstance(x, F):
        return mpmath.mpf(x.numerator) / x.denominator
    if isinstance(x, bool):
        return mpmath.mpf(int(x))
    if isinstance(x, (mpmath.mpc, mpmath.mpf)):
        return x
    return mpmath.mpf(x)


def is_number(x):
    return isinstance(x, (F, int, mpmath.mpf, mpmath.mpc)) and not isinstance(x, bool)


def exact(x):
    return isinstance(x, F)


def add(a, b):
    if isinstance(a, F) and isinstance(b, F):
        return a + b
    return mpf(a) + mpf(b)


def mul(a, b):
    if isinstance(a, F) and isinstance(b, F):
        return a * b
    if isinstance(a, F) and a == 0 or isinstance(b, F) and b == 0:
        return F(0)
    return mpf(a) * mpf(b)


def power(x, e):
    if e < 0:
        if x == 0:
            raise Undefined("division by zero")
        if isinstance(x, F):
            return F(1) / x ** (-e)
        return 1 / mpf(x) ** (-e)
    return x ** e


def greater(a, b):
    if isinstance(a, bool):
        a = F(int(a))
    if isinstance(b, bool):
        b = F(int(b))
    if isinstance(a, F) and isinstance(b, F):
        return a > b
    a, b = mpf(a), mpf(b)
    if isinstance(a, mpmath.mpc) or isinstance(b, mpmath.mpc):
        raise Unknown("order of complex numbers")
    return a > b


def magnitude(x):
    return abs(mpf(x))


class Env:
    """syms: term -> value; arrays: arrsym term -> list of values (or nested lists)."""

    def __init__(self, syms, arrays=None):
        self.syms = dict(syms)
        self.arrays = dict(arrays or {})
        self.memo = {}

    def copy(self):
        return Env(self.syms, {k: list(v) for k, v in self.arrays.items()})

    def describe(self):
        out = {}
        for k, v in self.syms.items():
            if not k.args[0].startswith("@"):
                out[k.args[0]] = plain(v)
        for k, v in self.arrays.items():
            out[k.args[0]] = [plain(x) for x in v]
        return out

    # ------------------------------------------------------------------------------------------
    def ev(self, x):
        m = self.memo
        r = m.get(x, m)
        if r is not m:
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._ev(x)
        except (Unknown, Undefined) as e:
            if not _has_bound(x):
                m[x] = e
            raise
        if not _has_bound(x):
            m[x] = r
        return r

    def num(self, x):
        v = self.ev(x)
        if isinstance(v, bool):
            return F(int(v))
        if not is_number(v):
            raise Unknown("not a number")
        return v

    def truth(self, x):
        v = self.ev(x)
        if isinstance(v, bool):
            return v
        raise Unknown("not a truth value")

    def count(self, n):
        v = self.num(n)
        k = as_int(v)
        if k > LIMIT:
            raise Unknown("too long")
        return max(0, k)

    def lam(self, lam, i):
        """Value of the body at integer i."""
        b = t.bv(lam.args[0])
        old = self.syms.get(b)
        self.syms[b] = F(i)
        try:
            return self.ev(lam.args[1])
        finally:
            if old is None:
                del self.syms[b]
            else:
                self.syms[b] = old

    def poly(self, x):
        """(value, scale) of a polynomial."""
        tot = F(0)
        scale = F(0)
        for m, c in x.args[0]:
            v = c
            for a, e in m:
                y = self.ev(a)
                if isinstance(y, bool):
                    y = F(int(y))
                if not is_number(y):
                    raise Unknown("not a number")
                v = mul(v, power(y, e))
            tot = add(tot, v)
            scale = add(scale, abs(v) if isinstance(v, F) else magnitude(v))
        if not isinstance(tot, F) and magnitude(tot) <= TINY * magnitude(scale):
            tot = F(0)
        return tot, scale

    def diff(self, d):
        """Sign of a difference with snapping of values that are zero up to rounding."""
        if d.op == "poly":
            v, s = self.poly(d)
        else:
            v = self.num(d)
            s = v
        if isinstance(v, F):
            # exact inputs: exact sign
            return (v > 0) - (v < 0)
        if isinstance(v, mpmath.mpc):
            if abs(v.imag) > CMP * magnitude(s):
                raise Unknown("order of complex numbers")
            v = v.real
        if abs(v) <= CMP * magnitude(s):
            return 0
        return 1 if v > 0 else -1

    def _ev(self, x):
        op = x.op
        if op == "q":
            return x.args[0]
        if op == "bool":
            return x.args[0]
        if op == "sym":
            v = self.syms.get(x, self)
            if v is self:
                raise Unknown("symbol %s" % x.args[0])
            return v
        if op == "poly":
            return self.poly(x)[0]
        if op == "elem":
            return self.elem(x)
        if op == "ite":
            return self.ev(x.args[1] if self.truth(x.args[0]) else x.args[2])
        if op == "lt":
            return self.diff(x.args[0]) < 0
        if op == "le":
            return self.diff(x.args[0]) <= 0
        if op == "eqz":
            d = x.args[0]
            if d.op == "poly":
                v, s = self.poly(d)
            else:
                v = s = self.num(d)
            if isinstance(v, F):
                return v == 0
            return magnitude(v) <= CMP * magnitude(s)
        if op == "not":
            return not self.truth(x.args[0])
        if op == "and":
            err = None
            for a in x.args:
                try:
                    if not self.truth(a):
                        return False
                except (Unknown, Undefined) as e:
                    err = e
            if err is not None:
                raise err
            return True
        if op == "or":
            err = None
            for a in x.args:
                try:
                    if self.truth(a):
                        return True
                except (Unknown, Undefined) as e:
                    err = e
            if err is not None:
                raise err
            return False
        f = getattr(self, "o_" + op, None)
        if f is None:
            raise Unknown(op)
        return f(x)

    # -- atoms -----------------------------------------------------------------------------------
    def elem(self, x):
        a = self.arrays.get(x.args[0])
        if a is None:
            raise Unknown("array %s" % x.args[0].args[0])
        for i in x.args[1:]:
            k = as_int(self.num(i))
            if not isinstance(a, list) or not 0 <= k < len(a):
                raise Unknown("index out of range")
            a = a[k]
        return a

    def o_pi(self, x):
        return +mp.pi

    def o_I(self, x):
        return mpmath.mpc(0, 1)

    def o_none(self, x):
        return None

    def o_str(self, x):
        return x.args[0]

    def o_inv(self, x):
        v = self.num(x.args[0])
        if v == 0:
            raise Undefined("division by zero")
        return F(1) / v if isinstance(v, F) else 1 / v

    def _real(self, x):
        v = self.num(x)
        if isinstance(v, mpmath.mpc):
            if abs(v.imag) > CMP * abs(v):
                raise Unknown("complex argument")
            v = v.real
        return v

    def o_sqrt(self, x):
        v = self._real(x.args[0])
        if v < 0:
            if isinstance(v, F) or v < -CMP:
                raise Undefined("square root of a negative number")
            return F(0)
        if isinstance(v, F):
            a, b = t._isqrt(v.numerator), t._isqrt(v.denominator)
            if a is not None and b is not None and a * a == v.numerator and b * b == v.denominator:
                return F(a, b)
        return mpmath.sqrt(mpf(v))

    def o_sin(self, x):
        return _snap(mpmath.sin(mpf(self.num(x.args[0]))))

    def o_cos(self, x):
        return _snap(mpmath.cos(mpf(self.num(x.args[0]))))

    def o_exp(self, x):
        return mpmath.exp(mpf(self.num(x.args[0])))

    def o_arccos(self, x):
        v = mpf(self._real(x.args[0]))
        if abs(v) > 1:
            if abs(v) > 1 + CMP:
                raise Undefined("arccos outside [-1, 1]")
            v = mpmath.sign(v)
        return mpmath.acos(v)

    def o_arctan2(self, x):
        return mpmath.atan2(mpf(self._real(x.args[0])), mpf(self._real(x.args[1])))

    def o_log(self, x):
        v = mpf(self._real(x.args[0]))
        if v <= 0:
            raise Undefined("logarithm of a non-positive number")
        return mpmath.log(v)

    def o_log2(self, x):
        v = self._real(x.args[0])
        if v <= 0:
            raise Undefined("logarithm of a non-positive number")
        r = mpmath.log(mpf(v), 2)
        n = mpmath.nint(r)
        if abs(r - n) < TINY:
            return F(int(n))
        return r

    def o_abs(self, x):
        v = self.num(x.args[0])
        return abs(v)

    def o_sgn(self, x):
        return F(self.diff(x.args[0]))

    def o_floor(self, x):
        v = self._real(x.args[0])
        if isinstance(v, F):
            return F(v.numerator // v.denominator)
        n = mpmath.nint(v)
        if abs(v - n) <= CMP * max(1, abs(v)):
            return F(int(n))
        return F(int(mpmath.floor(v)))

    def o_trunc(self, x):
        v = self._real(x.args[0])
        if isinstance(v, F):
            return F(int(v))
        n = mpmath.nint(v)
        if abs(v - n) <= CMP * max(1, abs(v)):
            return F(int(n))
        return F(int(v))

    def o_round(self, x):
        v = self._real(x.args[0])
        if isinstance(v, F):
            return F(round(v))
        return F(int(mpmath.nint(v)))

    def o_max(self, x):
        r = None
        for a in x.args:
            v = self._real(a)
            if r is None or greater(v, r):
                r = v
        return r

    def o_pow(self, x):
        b, e = self.num(x.args[0]), self.num(x.args[1])
        if isinstance(e, F) and e.denominator == 1 and abs(e) < 4000:
            return power(b, int(e))
        if isinstance(b, (F, mpmath.mpf)) and b < 0:
            raise Undefined("fractional power of a negative number")
        if b == 0:
            if e <= 0:
                raise Undefined("zero to a non-positive power")
            return F(0)
        return mpmath.power(mpf(b), mpf(e))

    def o_f32(self, x):
        import struct

        v = self._real(x.args[0])
        return F(struct.unpack("f", struct.pack("f", float(v)))[0])

    def o_gcd(self, x):
        import math

        return F(math.gcd(as_int(self.num(x.args[0])), as_int(self.num(x.args[1]))))

    def o_bit(self, x):
        return F((as_int(self.num(x.args[0])) >> as_int(self.num(x.args[1]))) & 1)

    def o_bitop(self, x):
        a, b = as_int(self.num(x.args[1])), as_int(self.num(x.args[2]))
        o = x.args[0]
        if o in ("and", "&", "BitAnd"):
            return F(a & b)
        if o in ("or", "|", "BitOr"):
            return F(a | b)
        if o in ("xor", "^", "BitXor"):
            return F(a ^ b)
        raise Unknown(o)

    # -- binders ---------------------------------------------------------------------------------
    def o_sum(self, x):
        tot = F(0)
        scale = F(0)
        for i in range(self.count(x.args[0])):
            v = self.lam(x.args[1], i)
            if isinstance(v, bool):
                v = F(int(v))
            tot = add(tot, v)
            scale = add(scale, abs(v))
        if not isinstance(tot, F) and magnitude(tot) <= TINY * magnitude(scale):
            return F(0)
        return tot

    def o_prod(self, x):
        tot = F(1)
        for i in range(self.count(x.args[0])):
            v = self.lam(x.args[1], i)
            tot = mul(tot, F(int(v)) if isinstance(v, bool) else v)
        return tot

    def o_amax(self, x):
        n = self.count(x.args[0])
        if n == 0:
            raise Undefined("maximum of an empty array")
        r = None
        for i in range(n):
            v = self.lam(x.args[1], i)
            if r is None or greater(v, r):
                r = v
        return r

    def ranked(self, x):
        vs = [self.lam(x.args[1], i) for i in range(self.count(x.args[0]))]
        order = []
        for i, v in enumerate(vs):
            j = len(order)
            while j > 0 and greater(vs[order[j - 1]], v):
                j -= 1
            order.insert(j, i)
        k = as_int(self.num(x.args[2]))
        if not 0 <= k < len(vs):
            raise Undefined("rank outside the array")
        return vs, order[k]

    def o_rank(self, x):
        vs, k = self.ranked(x)
        return vs[k]

    def o_argrank(self, x):
        return F(self.ranked(x)[1])

    def o_forall(self, x):
        err = None
        for i in range(self.count(x.args[0])):
            try:
                if not self.lam(x.args[1], i):
                    return False
            except (Unknown, Undefined) as e:
                err = e
        if err is not None:
            raise err
        return True

    def o_exists(self, x):
        err = None
        for i in range(self.count(x.args[0])):
            try:
                if self.lam(x.args[1], i):
                    return True
            except (Unknown, Undefined) as e:
                err = e
        if err is not None:
            raise err
        return False

    def o_nth(self, x):
        k = as_int(self.num(x.args[2]))
        c = -1
        for i in range(self.count(x.args[0])):
            if self.lam(x.args[1], i):
                c += 1
                if c == k:
                    return F(i)
        raise Unknown("index out of range")

    # -- strings: str, or Text of pieces -----------------------------------------------------------
    def o_tostr(self, x):
        v = self.ev(x.args[0])
        if isinstance(v, (str, Text)):
            return v
        if v is None or isinstance(v, bool):
            return str(v)
        return Text([("num", v)])

    def o_repr(self, x):
        v = self.ev(x.args[0])
        if isinstance(v, str):
            return repr(v)
        if v is None or isinstance(v, bool):
            return repr(v)
        if isinstance(v, Text):
            return Text([("repr", v)])
        return Text([("num", v)])

    def o_nprepr(self, x):
        a = x.args
        if len(a) == 2 and a[1].op == "lam":
            vals = [self.lam(a[1], i) for i in range(self.count(a[0]))]
        else:
            vals = [self.ev(y) for y in a]
        return Text([("array", vals)])

    def o_fmt(self, x):
        return Text([("fmt", self.ev(x.args[1]), self.ev(x.args[0]))])

    def o_cat(self, x):
        return text_cat([self.ev(a) for a in x.args])

    def o_join(self, x):
        sep = self.ev(x.args[0])
        if len(x.args) != 3 or x.args[2].op != "lam":
            raise Unknown("join")
        out = []
        for i in range(self.count(x.args[1])):
            if i:
                out.append(sep)
            out.append(self.lam(x.args[2], i))
        return text_cat(out)

    def o_binrepr(self, x):
        return bin(as_int(self.num(x.args[0])))[2:]

    def o_charat(self, x):
        s = self.ev(x.args[0])
        k = as_int(self.num(x.args[1]))
        if not isinstance(s, str) or not 0 <= k < len(s):
            raise Unknown("character")
        return s[k]

    def o_strlen(self, x):
        s = self.ev(x.args[0])
        if isinstance(s, str):
            return F(len(s))
        raise Unknown("length of text")

    def o_strfn(self, x):
        if x.args[0].startswith("path"):
            raise Unknown("path")
        return self.text_method(x)

    def o_strtest(self, x):
        return self.text_method(x)

    def text_method(self, x):
        vs = [self.ev(a) for a in x.args[1:]]
        if not isinstance(vs[0], str):
            raise Unknown("string method")
        if any(not isinstance(v, (str, F)) for v in vs):
            raise Unknown("string method")
        vs = [int(v) if isinstance(v, F) else v for v in vs]
        if x.args[0] == "contains":
            return vs[1] in vs[0]
        return getattr(vs[0], x.args[0])(*vs[1:])

    def o_same(self, x):
        a, b = self.ev(x.args[0]), self.ev(x.args[1])
        return same(a, b, 0)


class Text:
    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return "Text(%r)" % (self.parts,)


def text_cat(xs):
    out = []
    for v in xs:
        ps = v.parts if isinstance(v, Text) else [v]
        for p in ps:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            elif not isinstance(p, tuple):
                raise Unknown("text piece")
            out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Text(out)


def as_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, F):
        if v.denominator != 1:
            raise Unknown("not an integer")
        return int(v)
    n = mpmath.nint(v)
    if abs(v - n) > CMP * max(1, abs(v)):
        raise Unknown("not an integer")
    return int(n)


def _snap(v):
    return F(0) if magnitude(v) < TINY else v


def same(a, b, rel=REL, scale=0):
    """Equality of values up to rounding."""
    if isinstance(a, bool) and is_number(b):
        a = F(int(a))
    if isinstance(b, bool) and is_number(a):
        b = F(int(b))
    if is_number(a) and is_number(b):
        if isinstance(a, F) and isinstance(b, F) and not rel:
            return a == b
        d = magnitude(add(a, -b))
        return d <= (rel or TINY) * max(magnitude(a), magnitude(b), mpf(scale))
    if isinstance(a, Text) or isinstance(b, Text):
        pa = a.parts if isinstance(a, Text) else [a]
        pb = b.parts if isinstance(b, Text) else [b]
        if not all(isinstance(z, (str, tuple)) for z in pa + pb):
            return False
        return len(pa) == len(pb) and all(_same_piece(x, y, rel) for x, y in zip(pa, pb))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, rel) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def _same_piece(x, y, rel):
    if isinstance(x, str) or isinstance(y, str):
        # a constant rendered on one side and a number on the other
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        s, p = (x, y) if isinstance(x, str) else (y, x)
        if p[0] == "num" and is_number(p[1]):
            try:
                return same(F(s), p[1], rel)
            except ValueError:
                return False
        return False
    return len(x) == len(y) and all(same(u, v, rel) for u, v in zip(x, y))


def plain(v):
    if isinstance(v, F):
        return int(v) if v.denominator == 1 else float(v)
    if isinstance(v, mpmath.mpf):
        return float(v)
    if isinstance(v, mpmath.mpc):
        return str(complex(v))
    if isinstance(v, Text):
        return [x if isinstance(x, str) else [plain(y) for y in x] for x in v.parts]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


_BMEMO = {}


def _has_bound(x):
    r = _BMEMO.get(x)
    if r is None:
        if x.op == "sym":
            r = x.args[0].startswith("@")
        elif x.op == "lam":
            from .facts import _free_bvs

            r = bool(_free_bvs(x))
        else:
            r = any(_has_bound(c) for c in t.iter_children(x))
        _BMEMO[x] = r
    return r
