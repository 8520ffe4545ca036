"""Obligations on the segments of predefined driven controls."""

from fractions import Fraction as F

import mpmath

from pyvg import terms as t
from pyvg.terms import ONE, PI, ZERO, q

from . import driven

RULE = "segments equal the published definition for every rotation, rate and azimuth"


def angle(p, e):
    return p.angle()


def small_angle(lo, hi):
    def draw(p, e):
        r = p.rng.random()
        v = mpmath.mpf(p.rng.random()) if r < 0.5 else p.rng.choice([mpmath.mpf(1), mpmath.mpf(1) / 4, mpmath.mpf(1) / 8,
                                                        mpmath.mpf(1) / 2, mpmath.mpf(1) / 16])
        return lo + v * (hi - lo) * mpmath.mp.pi

    return draw


def run_schemes(ck, schemes):
    for s in schemes:
        targets = driven.TARGETS if s in driven.TABLED or s == "wamf1" else {"any": None}
        for tn, tv in targets.items():
            for variant in ("all arguments", "default azimuth and name", "whole numbers"):

                def ob(o, s=s, tn=tn, tv=tv, variant=variant):
                    sc = ck.scenario(o.name)
                    whole = variant == "whole numbers"
                    rate = sc.int("rate", "pos") if whole else sc.real("rate", "pos")
                    if tv is None:
                        theta = sc.int("theta", "pos", draw=lambda p, e: F(p.rng.randint(1, 13))) if whole else sc.real(
                            "theta", "pos", draw=small_angle(0, 4))
                        if s in driven.LIMITED:
                            sc.assume(t.le(theta, t.mul(q(4), PI)))
                        if "corpse" in s:
                            sc.assume(*driven.corpse_lemma(theta))
                        key = theta
                    else:
                        theta, key = tv, tn
                    kw = {"rabi_rotation": theta, "maximum_rabi_rate": rate}
                    phi, name = ZERO, None
                    if whole:
                        phi = kw["azimuthal_angle"] = sc.int("phi")
                    if variant == "all arguments":
                        phi = kw["azimuthal_angle"] = sc.real("phi", draw=angle)
                        name = kw["name"] = sc.str("label")
                    out = sc.call(driven.entry(s), **kw)
                    ck.equal(o, sc, out, sc.attrs(out, driven.FIELDS), driven.record(s, key, phi, rate, name))

                ck.guard("%s, rotation %s, %s" % (s, tn, variant), RULE, driven.entry(s), ob)


def near_target(value):
    """Draw of rotations equal to the target up to rounding or a truncated literal."""
    def draw(p, e):
        d = p.rng.choice([0, 1, -1, 3, -7]) * mpmath.mpf(10) ** p.rng.choice([-15, -10, -8, -7])
        return e.ev(value) + d

    return draw


def run_rounded(ck, schemes):
    """A rotation given as a rounded literal selects the same table entry."""
    for s in schemes:
        for tn, tv in driven.TARGETS.items():

            def ob(o, s=s, tn=tn, tv=tv):
                sc = ck.scenario(o.name)
                rate, phi = sc.real("rate", "pos"), sc.real("phi", draw=angle)
                theta = sc.real("theta", "pos", draw=near_target(tv))
                sc.assume(t.le(theta, t.add(tv, q("1/1000000"))), t.ge(theta, t.sub(tv, q("1/1000000"))))
                out = sc.call(driven.entry(s), rabi_rotation=theta, maximum_rabi_rate=rate, azimuthal_angle=phi)
                ck.equal(o, sc, out, sc.attrs(out, driven.FIELDS), driven.record(s, (tn, theta), phi, rate, None),
                         slack=mpmath.mpf("1e-4"))

            ck.guard("%s, rotation within 1e-6 of %s" % (s, tn), "segments equal the tabulated ones up to the rounding of the rotation",
                     driven.entry(s), ob)
