"""Change of time unit."""

from pyvg import terms as t
from pyvg.check import R, as_spec
from pyvg.terms import NONE, PI, ZERO, q

from . import conv, dds, driven
from .c12 import scene
from .c13 import rotation
from .values import angle

MINIMUM = 100
RULE = "rescaling time rescales durations and offsets, rescales rates inversely and leaves angles alone"
CONTROL = ["durations", "rabi_rates", "azimuthal_angles", "detunings"]
SEQUENCE = ["duration", "offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations"]


def control_scaled(d, s):
    return R({"durations": as_spec(d["durations"], lambda v: t.mul(v, s)),
              "rabi_rates": as_spec(d["rabi_rates"], lambda v: t.div(v, s)),
              "azimuthal_angles": as_spec(d["azimuthal_angles"]),
              "detunings": as_spec(d["detunings"], lambda v: t.div(v, s))})


def sequence_scaled(d, s):
    return R({"duration": t.mul(d["duration"], s), "offsets": as_spec(d["offsets"], lambda v: t.mul(v, s)),
              "rabi_rotations": as_spec(d["rabi_rotations"]), "azimuthal_angles": as_spec(d["azimuthal_angles"]),
              "detuning_rotations": as_spec(d["detuning_rotations"])})


def run(ck):
    for s in driven.ALL:
        for target in (driven.TARGETS if s in driven.TABLED or s == "wamf1" else [None]):

            def ob(o, s=s, target=target):
                sc = ck.scenario(o.name)
                theta, rate, k = rotation(sc, s, target), sc.real("rate", "pos"), sc.real("unit", "pos")
                phi = sc.real("phi", draw=angle)
                kw = {"rabi_rotation": theta, "azimuthal_angle": phi}
                a = sc.call(driven.entry(s), maximum_rabi_rate=rate, **kw)
                d = sc.attrs(a, CONTROL).data
                b = sc.then(a, driven.entry(s), maximum_rabi_rate=t.div(rate, k), **kw)
                ck.equal(o, sc, b, sc.attrs(b, CONTROL), control_scaled(d, k))

            ck.guard("control %s%s" % (s, "" if target is None else ", rotation " + target), RULE, driven.entry(s), ob)
    for count in (None, 2, 3, 4):
        for zero in (True, False):

            def gaussian(o, count=count, zero=zero):
                sc = ck.scenario(o.name)
                T_, rate, least, n = scene(sc, count)
                f, k = ZERO if zero else sc.real("f"), sc.real("unit", "pos")
                if not zero:
                    sc.assume(t.ne(f, ZERO))
                e = "new_modulated_gaussian_control"
                a = sc.call(e, maximum_rabi_rate=rate, minimum_segment_duration=least, duration=T_,
                            modulation_frequency=f)
                d = sc.attrs(a, CONTROL).data
                b = sc.then(a, e, maximum_rabi_rate=t.div(rate, k), minimum_segment_duration=t.mul(least, k),
                            duration=t.mul(T_, k), modulation_frequency=t.div(f, k))
                ck.equal(o, sc, b, sc.attrs(b, CONTROL), control_scaled(d, k))

            ck.guard("control modulated_gaussian, %s, %s" % ("zero frequency" if zero else "modulated", "any count"
                     if count is None else "%d segments" % count), RULE, "new_modulated_gaussian_control", gaussian)
    cases = [("ramsey", None), ("spin_echo", None)]
    for s in dds.COUNTED:
        cases += [(s, None)] + [(s, {"offset_count": q(m)}) for m in (1, 2, 5)]
    cases += [("quadratic", {"inner_offset_count": q(a), "outer_offset_count": q(b)}) for a, b in ((1, 2), (2, 1), (3, 3))]
    cases += [("walsh", {"paley_order": q(k)}) for k in (1, 2, 3, 5, 6, 12, 100)]
    for s in ("x_concatenated", "xy_concatenated"):
        cases += [(s, {"concatenation_order": q(k)}) for k in (1, 2, 3)]
    for s, fixed in cases:
        for pre in (False, True):

            def seq(o, s=s, fixed=fixed, pre=pre):
                sc = ck.scenario(o.name)
                tau, k = sc.real("tau", "pos"), sc.real("unit", "pos")
                kw = dict(fixed or {})
                if s in dds.COUNTED and fixed is None:
                    kw["offset_count"] = sc.int("m", "pos")
                if pre:
                    kw["pre_post_rotation"] = t.TRUE
                a = sc.call(dds.entry(s), duration=tau, **kw)
                d = sc.attrs(a, SEQUENCE).data
                b = sc.then(a, dds.entry(s), duration=t.mul(tau, k), **kw)
                ck.equal(o, sc, b, sc.attrs(b, SEQUENCE), sequence_scaled(d, k))

            tag = "" if not fixed else " " + ", ".join(str(int(v.args[0])) for v in fixed.values())
            ck.guard("sequence %s%s%s" % (s, tag, " with pre/post rotations" if pre else ""), RULE, dds.entry(s), seq)
    for w, first, last in [("X", 0, 0), ("N", 1, 0), ("XP", 0, 1), ("NX", 0, 0), ("XX", 1, 1), ("XIN", 0, 0)]:
        for least in (False, True):

            def conversion(o, a=(w, bool(first), bool(last)), least=least):
                sc = ck.scenario(o.name)
                k = sc.real("unit", "pos")
                lay = conv.Layout(sc, *a, (1,) * conv.gap_count(*a), least)
                x = conv.convert(sc, lay, lay.sequence())
                d = sc.attrs(x, CONTROL).data
                lay.offsets, lay.tau = [t.mul(v, k) for v in lay.offsets], t.mul(lay.tau, k)
                lay.rate, lay.drate, lay.least = t.div(lay.rate, k), t.div(lay.drate, k), t.mul(lay.least, k)
                y = conv.convert(sc, lay, lay.sequence())
                y.base.base = x
                ck.equal(o, sc, y, sc.attrs(y, CONTROL), control_scaled(d, k))

            ck.guard("conversion [%s]%s%s, minimum segment %s" % (
                w, ", first at start" if first else "", ", last at end" if last else "",
                "positive" if least else "zero"), RULE, "convert_dds_to_driven_control", conversion)
