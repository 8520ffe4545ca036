"""Published definitions of the predefined driven controls."""

from pyvg import terms as t
from pyvg.check import E, R
from pyvg.terms import NONE, ONE, PI, ZERO, q

TWO_PI = t.mul(q(2), PI)
TARGETS = {"pi": PI, "pi/2": t.div(PI, q(2)), "pi/4": t.div(PI, q(4))}


def add(*xs):
    return t.add(*[x if hasattr(x, "op") else q(x) for x in xs])


def mul(*xs):
    return t.mul(*[x if hasattr(x, "op") else q(x) for x in xs])


def wimperis(theta):
    return t.arccos(t.neg(t.div(theta, mul(4, PI))))


def corpse(theta, phi):
    k = t.arcsin(t.div(t.sin(t.div(theta, q(2))), q(2)))
    half = t.div(theta, q(2))
    return [(add(TWO_PI, half, t.neg(k)), phi), (add(TWO_PI, mul(-2, k)), add(phi, PI)), (add(half, t.neg(k)), phi)]


def primitive(theta, phi):
    return [(theta, phi)]


def bb1(theta, phi):
    p = wimperis(theta)
    return [(theta, phi), (PI, add(phi, p)), (TWO_PI, add(phi, mul(3, p))), (PI, add(phi, p))]


def sk1(theta, phi):
    p = wimperis(theta)
    return [(theta, phi), (TWO_PI, add(phi, t.neg(p))), (TWO_PI, add(phi, p))]


def corpse_in_bb1(theta, phi):
    return corpse(theta, phi) + bb1(theta, phi)[1:]


def corpse_in_sk1(theta, phi):
    return corpse(theta, phi) + sk1(theta, phi)[1:]


def scrofulous_angles(target):
    """target: name of the tabulated rotation, or the name with the rotation asked for."""
    target, theta = target if isinstance(target, tuple) else (target, TARGETS[target])
    deg = {"pi": "180", "pi/2": "115.2", "pi/4": "96.7"}[target]
    t1 = mul(q(deg) if "." not in deg else q(decimal(deg)), PI, q("1/180"))
    f1 = t.arccos(t.neg(t.div(mul(PI, t.cos(t1)), mul(2, t1, t.sin(t.div(theta, q(2)))))))
    f2 = t.sub(f1, t.arccos(t.neg(t.div(PI, mul(2, t1)))))
    return [(t1, f1), (PI, f2), (t1, f1)]


def decimal(s):
    from fractions import Fraction

    return Fraction(s)


def scrofulous(target, phi):
    return [(a, add(phi, f)) for a, f in scrofulous_angles(target)]


def corpse_in_scrofulous(target, phi):
    out = []
    for a, f in scrofulous(target, phi):
        out += corpse(a, f)
    return out


def wamf1(target):
    """theta plus, theta minus."""
    target = target[0] if isinstance(target, tuple) else target
    if target == "pi":
        return PI, t.div(PI, q(2))
    a, b = {"pi/2": ("2.5", "0.65667825"), "pi/4": ("2.25", "0.36256159")}[target]
    a, b = decimal(a), decimal(b)
    return mul(PI, q((a + b) / 4)), mul(PI, q((a - b) / 4))


FREE = {"primitive": primitive, "bb1": bb1, "sk1": sk1, "corpse": corpse, "corpse_in_bb1": corpse_in_bb1,
        "corpse_in_sk1": corpse_in_sk1}
TABLED = {"scrofulous": scrofulous, "corpse_in_scrofulous": corpse_in_scrofulous}
LIMITED = ("bb1", "sk1", "corpse_in_bb1", "corpse_in_sk1")
ALL = list(FREE) + list(TABLED) + ["wamf1"]
FIELDS = ["rabi_rates", "azimuthal_angles", "detunings", "durations", "name"]


def entry(scheme):
    return "new_%s_control" % scheme


def segments(scheme, theta, phi, rate):
    """List of (rate, azimuth, duration)."""
    if scheme == "wamf1":
        plus, minus = wamf1(theta)
        d = t.div(plus, rate)
        lo = t.div(mul(rate, minus), plus)
        return [(rate, phi, d), (lo, phi, d), (lo, phi, d), (rate, phi, d)]
    fn = FREE.get(scheme) or TABLED[scheme]
    return [(rate, f, t.div(a, rate)) for a, f in fn(theta, phi)]


def record(scheme, theta, phi, rate, name):
    s = segments(scheme, theta, phi, rate)
    return R({"rabi_rates": E([x[0] for x in s]), "azimuthal_angles": E([x[1] for x in s]),
              "detunings": E([ZERO] * len(s)), "durations": E([x[2] for x in s]),
              "name": name if name is not None else NONE})


def corpse_lemma(theta):
    """k = arcsin(sin(theta/2)/2) lies in [-pi/6, pi/6] and theta/2 - k has the sign of theta."""
    k = t.arcsin(t.div(t.sin(t.div(theta, q(2))), q(2)))
    half = t.div(theta, q(2))
    return [t.le(k, t.div(PI, q(6))), t.ge(k, t.div(PI, q(-6))),
            t.lor(t.le(theta, ZERO), t.gt(half, k)), t.lor(t.ge(theta, ZERO), t.lt(half, k))]
