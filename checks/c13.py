"""Limits and azimuthal covariance of the predefined driven controls."""

from pyvg import terms as t
from pyvg.check import A, R, as_spec
from pyvg.terms import PI, ZERO, q

from . import driven
from .c12 import scene
from .common import amax, close
from .values import angle, small_angle

MINIMUM = 54
ARRAYS = ["durations", "rabi_rates", "azimuthal_angles", "detunings"]


def rotation(sc, s, target):
    if target is None:
        theta = sc.real("theta", "pos", draw=small_angle(0, 4))
        if s in driven.LIMITED:
            sc.assume(t.le(theta, t.mul(q(4), PI)))
        if "corpse" in s:
            sc.assume(*driven.corpse_lemma(theta))
        return theta
    return driven.TARGETS[target]


def run(ck):
    for s in driven.ALL:
        for target in (driven.TARGETS if s in driven.TABLED or s == "wamf1" else [None]):
            tag = s if target is None else "%s, rotation %s" % (s, target)

            def covariance(o, s=s, target=target):
                sc = ck.scenario(o.name)
                theta, rate, phi = rotation(sc, s, target), sc.real("rate", "pos"), sc.real("phi", draw=angle)
                a = sc.call(driven.entry(s), rabi_rotation=theta, maximum_rabi_rate=rate)
                base = sc.attrs(a, ARRAYS)
                b = sc.then(a, driven.entry(s), rabi_rotation=theta, maximum_rabi_rate=rate, azimuthal_angle=phi)
                d = base.data
                spec = {k: as_spec(d[k]) for k in ("durations", "rabi_rates", "detunings")}
                spec["azimuthal_angles"] = as_spec(d["azimuthal_angles"], lambda v: t.add(v, phi))
                ck.equal(o, sc, b, sc.attrs(b, ARRAYS), R(spec))

            ck.guard("%s: requested azimuth" % tag, "the requested azimuthal angle is added to every segment and changes "
                     "nothing else", driven.entry(s), covariance)

            def limits(o, s=s, target=target):
                sc = ck.scenario(o.name)
                theta, rate, phi = rotation(sc, s, target), sc.real("rate", "pos"), sc.real("phi", draw=angle)
                a = sc.call(driven.entry(s), rabi_rotation=theta, maximum_rabi_rate=rate, azimuthal_angle=phi)
                got = sc.attrs(a, ["maximum_rabi_rate", "detunings"])
                n = as_spec(got.data["detunings"]).n
                ck.equal(o, sc, a, got, R({"maximum_rabi_rate": rate, "detunings": A(n, lambda i: ZERO)}))

            ck.guard("%s: maximum rate reached and not exceeded, no detuning" % tag,
                     "largest segment rate equals the maximum rate; detunings are zero", driven.entry(s), limits)

            def positive(o, s=s, target=target):
                sc = ck.scenario(o.name)
                theta, rate = rotation(sc, s, target), sc.real("rate", "pos")
                a = sc.call(driven.entry(s), rabi_rotation=theta, maximum_rabi_rate=rate)
                spec = as_spec(sc.attr(a, "durations"))
                m = int(spec.n.args[0])
                ck.holds(o, sc, t.land(*[t.gt(spec.fn(q(i)), ZERO) for i in range(m)]), a.facts, a.taint)

            ck.guard("%s: positive durations" % tag, "every segment has a positive duration", driven.entry(s), positive)

    for count in (None, 2, 3, 5):
        for zero in (True, False):

            def plain(o, count=count, zero=zero):
                sc = ck.scenario(o.name)
                T_, rate, least, n = scene(sc, count)
                f = ZERO if zero else sc.real("f")
                if not zero:
                    sc.assume(t.ne(f, ZERO))
                a = sc.call("new_modulated_gaussian_control", maximum_rabi_rate=rate, minimum_segment_duration=least,
                            duration=T_, modulation_frequency=f)
                got = sc.attrs(a, ["detunings", "duration", "number_of_segments"])
                ck.equal(o, sc, a, got, R({"detunings": A(n, lambda i: ZERO), "duration": T_, "number_of_segments": n}))

            ck.guard("modulated gaussian, %s, %s: total duration, no detuning" % (
                "zero frequency" if zero else "modulated", "any count" if count is None else "%d segments" % count),
                "the control lasts exactly the requested duration without detuning",
                "new_modulated_gaussian_control", plain)

    def shortest(o):
        sc = ck.scenario(o.name)
        T_, rate, least, n = scene(sc, None)
        a = sc.call("new_modulated_gaussian_control", maximum_rabi_rate=rate, minimum_segment_duration=least,
                    duration=T_, modulation_frequency=ZERO)
        spec = as_spec(sc.attr(a, "durations"))
        ck.holds(o, sc, t.ge(spec.fn(ZERO), least), a.facts, a.taint)

    ck.guard("modulated gaussian: segments not shorter than the minimum", "every segment lasts at least the minimum "
             "segment duration", "new_modulated_gaussian_control", shortest)
