"""Rotations of a spin as unit quaternions over symbolic angles.

Angles are rational combinations of pi and atoms (symbols, inverse cosines).  Sines and cosines of
atom fractions become polynomial variables; the relations between them (sum of squares, and what an
inverse cosine is the inverse of) form an ideal, and an identity is proved by reduction to zero.
"""

from fractions import Fraction as F
from math import lcm

import sympy as sp

from pyvg import terms as t
from pyvg.terms import PI, q


class Gap(Exception):
    """Angle or relation outside the supported form."""


def linear(x):
    """Coefficients of an angle over pi and atoms."""
    out = {}
    for mono, c in t.to_poly(x).items():
        if len(mono) != 1 or mono[0][1] != 1:
            if not mono:
                raise Gap("constant angle %s" % c)
            raise Gap("angle is not linear: %s" % t.show(x))
        a = mono[0][0]
        out[a] = out.get(a, F(0)) + c
    return out


class Angles:
    """Shared polynomial variables for a set of angles."""

    def __init__(self, angles):
        self.lin = {x: linear(x) for x in angles}
        den = {}
        for d in self.lin.values():
            for a, c in d.items():
                den[a] = lcm(den.get(a, 1), c.denominator)
        # arguments of inverse cosines mention the sine or cosine of other angles
        self.rel, todo = [], [a for a in den]
        self.inner = []
        for a in todo:
            if a.op == "arccos":
                k = trig_multiple(a.args[0])
                if k is not None:
                    c, fn, arg = k
                    self.inner.append((a, c, fn, arg))
                    for b, cb in linear(arg).items():
                        den[b] = lcm(den.get(b, 1), cb.denominator)
        for a, c, fn, arg in self.inner:
            den[PI] = lcm(den.get(PI, 1), linear(arg).get(PI, F(0)).denominator)
        if den.get(PI, 1) > 24:
            raise Gap("fraction %d of pi" % den[PI])
        self.den = den
        self.var = {}
        for i, a in enumerate(sorted(den, key=t.show)):
            self.var[a] = sp.symbols("c%d s%d" % (i, i))
            c, s = self.var[a]
            self.rel.append(c ** 2 + s ** 2 - 1)
        if PI in den:
            self.rel += self.half_turn()
        for a, c, fn, arg in self.inner:
            if not all(b in self.var for b in linear(arg)):
                raise Gap("argument of an inverse cosine")
            cos_a, _ = self.exp({a: F(1)})
            ca, sa = self.exp(linear(arg))
            self.rel.append(cos_a - sp.Rational(c.numerator, c.denominator) * (ca if fn == "cos" else sa))
        self.basis = sp.groebner(self.rel, *[v for p in self.var.values() for v in p], order="grevlex") if self.rel else None

    def half_turn(self):
        c, s = sp.Integer(1), sp.Integer(0)
        x, y = self.var[PI]
        for _ in range(self.den[PI]):
            c, s = sp.expand(c * x - s * y), sp.expand(s * x + c * y)
        return [c + 1, s]

    def exp(self, d):
        """cos and sin of an angle."""
        c, s = sp.Integer(1), sp.Integer(0)
        for a, k in d.items():
            if a not in self.var:
                raise Gap("unexpected angle %s" % t.show(a))
            m = k * self.den[a]
            if m.denominator != 1:
                raise Gap("fraction of an angle")
            m = int(m)
            if a is PI:
                m %= 2 * self.den[a]
                if m and m % (self.den[a]) == 0:
                    m = 0
                    c, s = -c, -s
            ca, sa = sp.Integer(1), sp.Integer(0)
            x, y = self.var[a]
            for _ in range(abs(m)):
                ca, sa = sp.expand(ca * x - sa * y), sp.expand(sa * x + ca * y)
            if m < 0:
                sa = -sa
            c, s = sp.expand(c * ca - s * sa), sp.expand(s * ca + c * sa)
        return self.reduce(c), self.reduce(s)

    def reduce(self, x):
        x = sp.expand(x)
        if getattr(self, "basis", None) is None or x.is_number:
            return x
        return self.basis.reduce(x)[1]

    def of(self, x):
        return self.exp(self.lin[x])


def trig_multiple(x):
    """x = c * sin(arg) or c * cos(arg)."""
    items = list(t.to_poly(x).items())
    if len(items) == 1 and len(items[0][0]) == 1:
        (a, e), c = items[0][0][0], items[0][1]
        if e == 1 and a.op in ("sin", "cos"):
            return c, a.op, a.args[0]
    return None


def product(p, r, red=lambda x: x, mul=None, add=None):
    """Quaternion product p r (r acts first)."""
    mul = mul or (lambda a, b: a * b)
    add = add or (lambda *xs: sum(xs))
    neg = (lambda a: t.neg(a)) if isinstance(p[0], t.T) else (lambda a: -a)
    w, x, y, z = p
    a, b, c, d = r
    return tuple(red(v) for v in (
        add(mul(w, a), neg(mul(x, b)), neg(mul(y, c)), neg(mul(z, d))),
        add(mul(w, b), mul(x, a), mul(y, d), neg(mul(z, c))),
        add(mul(w, c), neg(mul(x, d)), mul(y, a), mul(z, b)),
        add(mul(w, d), mul(x, c), neg(mul(y, b)), mul(z, a))))


def exact(segments, theta, phi):
    """True if the rotations (angle, azimuth), first to last, compose to (theta, phi) up to sign."""
    half = lambda x: t.div(x, q(2))
    merged = []
    for a, f in segments:
        if merged and merged[-1][1] is f:
            merged[-1] = (t.add(merged[-1][0], a), f)
        else:
            merged.append((a, f))
    segments = merged
    angles = [half(a) for a, _ in segments] + [f for _, f in segments] + [half(theta), phi]
    A = Angles(angles)

    def rot(a, f):
        c, s = A.of(half(a))
        cf, sf = A.of(f)
        return (c, A.reduce(s * cf), A.reduce(s * sf), sp.Integer(0))

    net = (sp.Integer(1), sp.Integer(0), sp.Integer(0), sp.Integer(0))
    for a, f in segments:
        net = product(rot(a, f), net, A.reduce)
    want = rot(theta, phi)
    return any(all(A.reduce(x - sg * y) == 0 for x, y in zip(net, want)) for sg in (1, -1))


def term_rotation(a, f):
    h = t.div(a, q(2))
    s = t.sin(h)
    return (t.cos(h), t.mul(s, t.cos(f)), t.mul(s, t.sin(f)), t.ZERO)


def term_net(segments):
    net = (t.ONE, t.ZERO, t.ZERO, t.ZERO)
    for a, f in segments:
        net = product(term_rotation(a, f), net, mul=t.mul, add=t.add)
    return net
