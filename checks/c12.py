"""Segments of the modulated Gaussian control."""

from fractions import Fraction as F

from pyvg import terms as t
from pyvg.check import A, R
from pyvg.terms import NONE, ONE, PI, ZERO, q

from .common import amax, vsum

MINIMUM = 16
BUDGET = 600
WHERE = "new_modulated_gaussian_control"
FIELDS = ["durations", "rabi_rates", "azimuthal_angles", "detunings", "name"]


def scene(sc, count=None, tag="", whole=False):
    T_ = sc.int("T" + tag, "pos") if whole else sc.real("T" + tag, "pos")
    two_pi = t.mul(q(2), PI)
    floor_rate = t.div(t.sqrt(two_pi), t.mul(q("1/10"), T_))
    rate = t.add(floor_rate, sc.real("excess" + tag, "nonneg"))
    if count is None:
        least = sc.real("least" + tag, "pos", lambda p, e: e.ev(T_) / (p.large() or F(p.rng.randint(11, 79), 10)))
        sc.assume(t.gt(T_, least))
        n = t.ceil(t.div(T_, least))
    else:
        # count-1 < T/least <= count
        u = sc.real("u" + tag, "pos", lambda p, e: F(p.rng.randint(1, 7), 7))
        sc.assume(t.le(u, ONE))
        least = t.div(T_, t.add(q(count - 1), u))
        n = q(count)
    return T_, rate, least, n


def shape(T_, n):
    """Midpoints relative to the centre, and the Gaussian there."""
    h = t.div(T_, n)
    x = lambda i: t.sub(t.mul(h, t.add(i, q("1/2"))), t.div(T_, q(2)))
    g = lambda i: t.exp(t.neg(t.div(t.power(t.div(x(i), t.mul(q("1/10"), T_)), q(2)), q(2))))
    return h, x, g


def modulated(T_, n, f):
    _, x, g = shape(T_, n)
    return lambda i: t.mul(g(i), t.sin(t.mul(q(2), PI, f, x(i))))


def spec(sc, T_, rate, n, f, zero):
    two_pi = t.mul(q(2), PI)
    h, x, g = shape(T_, n)
    if zero:
        top = amax(sc, n, g)
        u = lambda i: t.div(g(i), top)
        angle = t.mul(h, vsum(n, u), rate)
        full = t.vmax(t.sub(angle, t.mod(angle, two_pi)), two_pi)
        v = lambda i: t.mul(u(i), rate, t.div(full, angle))
    else:
        m = modulated(T_, n, f)
        top = amax(sc, n, m)
        v = lambda i: t.div(t.mul(rate, m(i)), top)
    return R({"durations": A(n, lambda i: h), "rabi_rates": A(n, lambda i: t.absv(v(i))),
              "azimuthal_angles": A(n, lambda i: t.ite(t.ge(v(i), ZERO), ZERO, PI)),
              "detunings": A(n, lambda i: ZERO), "name": NONE})


def run(ck):
    for count, whole in ((None, False), (2, False), (3, False), (4, False), (5, False), (11, False), (None, True), (4, True)):
        for zero in (True, False):

            def ob(o, count=count, zero=zero, whole=whole):
                sc = ck.scenario(o.name)
                T_, rate, least, n = scene(sc, count, whole=whole)
                f = ZERO if zero else sc.int("f") if whole else sc.real("f")
                if not zero:
                    sc.assume(t.ne(f, ZERO))
                out = sc.call("new_modulated_gaussian_control", maximum_rabi_rate=rate, minimum_segment_duration=least,
                              duration=T_, modulation_frequency=f)
                ck.equal(o, sc, out, sc.attrs(out, FIELDS), spec(sc, T_, rate, n, f, zero))

            ck.guard("%s, %s" % ("plain" if zero else "modulated", ("any count" if count is None else "%d segments" % count) + (
                ", whole duration" if whole else "")),
                     "segments follow the documented Gaussian", WHERE, ob)
