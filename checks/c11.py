"""Argument validation of predefined driven controls."""

from pyvg import terms as t
from pyvg.terms import PI, ZERO, q

from . import driven
from .common import close
from .values import angle

MINIMUM = 20
RULE = "raises exactly when the rotation or rate is outside the documented domain"


def run(ck):
    for s in driven.ALL:
        for part in ("domain", "error class"):

            def ob(o, s=s, part=part):
                sc = ck.scenario(o.name)
                theta = sc.real("theta", draw=angle)
                rate = sc.real("rate")
                phi = sc.real("phi", draw=angle)
                if "corpse" in s and s in driven.FREE:
                    sc.assume(*driven.corpse_lemma(theta))
                bad = [t.le(rate, ZERO)]
                if s in driven.FREE:
                    bad.append(t.le(theta, ZERO))
                    if s in driven.LIMITED:
                        bad.append(t.gt(theta, t.mul(q(4), PI)))
                else:
                    bad.append(t.land(*[t.lnot(close(theta, x)) for x in driven.TARGETS.values()]))
                out = sc.call(driven.entry(s), rabi_rotation=theta, maximum_rabi_rate=rate, azimuthal_angle=phi)
                if part == "domain":
                    ck.rejects(o, sc, out, t.lor(*bad))
                else:
                    ck.only(o, sc, out)

            ck.guard("%s: %s" % (s, part), RULE, driven.entry(s), ob)
    for freq in ("zero", "non-zero"):
        for part in ("domain", "error class"):

            def ob(o, freq=freq, part=part):
                sc = ck.scenario(o.name)
                rate, seg, T = sc.real("rate"), sc.real("segment"), sc.real("T")
                f = ZERO
                if freq != "zero":
                    f = sc.real("f")
                    sc.assume(t.ne(f, ZERO))
                need = t.div(t.sqrt(t.mul(q(2), PI)), t.mul(q("1/10"), T))
                out = sc.call("new_modulated_gaussian_control", maximum_rabi_rate=rate,
                              minimum_segment_duration=seg, duration=T, modulation_frequency=f)
                if part == "domain":
                    ck.rejects(o, sc, out, t.lor(t.le(rate, ZERO), t.le(seg, ZERO), t.le(T, seg), t.lt(rate, need)))
                else:
                    ck.only(o, sc, out)

            ck.guard("modulated gaussian, %s frequency: %s" % (freq, part), RULE, "new_modulated_gaussian_control", ob)
