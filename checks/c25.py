"""Which conversions are refused."""

from fractions import Fraction as F

from pyvg import terms as t
from pyvg.terms import TRUE, ZERO, q

from . import conv
from .common import sequence

MINIMUM = 333
BUDGET = 600
WHERE = "convert_dds_to_driven_control"


def call(sc, out, **kw):
    out.enter()
    o = sc.S.call(sc.S.export("convert_dds_to_driven_control"), [], dict(kw, dynamic_decoupling_sequence=out.value))
    o.scenario, o.base = sc, out
    return o


def refused(ck, o, sc, e):
    if e.st is not None:
        ck.rejects(o, sc, e, TRUE)
    else:
        ck.only(o, sc, e)


def generic(sc, n, kind="ndarray", **draws):
    """A sequence the constructor accepts, with given element draws."""
    tau = sc.real("tau", "pos")
    kw, f = {"duration": tau}, {"duration": tau}
    for a in ("offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations"):
        def draw(p, e, k, a=a):
            T = e.ev(tau)
            if a in draws:
                return draws[a](p, e, k, T)
            if a == "offsets":
                return [T * F(2 * j + 1, 2 * k) for j in range(k)]
            if a == "azimuthal_angles":
                return [p.real() for _ in range(k)]
            return [F(0)] * k
        kw[a], f[a] = sc.array("s_" + a, n, kind, draw=draw)
    sc.assume(sc.forall(n, lambda i: t.land(t.ge(f["offsets"](i), ZERO), t.le(f["offsets"](i), tau))))
    return kw, f


def run(ck):
    rule = "conversion raises the package's argument error"

    # limits that make no sense, whatever the sequence
    for label in ("zero Rabi rate", "negative Rabi rate", "zero detuning rate", "negative detuning rate",
                  "negative minimum segment"):
        for k in (None, 0, 1, 2, 3):

            def limits(o, label=label, k=k):
                sc = ck.scenario(o.name)
                n = sc.int("n", "nonneg") if k is None else q(k)
                kw, _ = generic(sc, n)
                rate, drate, least = sc.real("rate", "pos"), sc.real("drate", "pos"), sc.real("least", "nonneg")
                bad = sc.real("bad", "pos")
                if "minimum" in label:
                    least = t.neg(bad)
                elif "Rabi" in label:
                    rate = ZERO if "zero" in label else t.neg(bad)
                else:
                    drate = ZERO if "zero" in label else t.neg(bad)
                e = call(sc, sc.call("DynamicDecouplingSequence", **kw), maximum_rabi_rate=rate,
                         maximum_detuning_rate=drate, minimum_segment_duration=least)
                refused(ck, o, sc, e)

            ck.guard("%s, %s operations" % (label, "any number of" if k is None else k), rule, WHERE, limits)

    # operations that cannot be realised
    for label in ("negative Rabi rotation", "Rabi and positive detuning together", "Rabi and negative detuning together"):
        for k in (None, 1, 2, 3):
            for at in ([None] if k is None else range(k)):

                def unreal(o, label=label, k=k, at=at):
                    sc = ck.scenario(o.name)
                    n = sc.int("n", "pos") if k is None else q(k)
                    sign = F(-1) if "negative detuning" in label else F(1)

                    spot = q(at) if at is not None else sc.int(
                        "spot", "nonneg", lambda p, e: p.rng.randrange(int(e.ev(n))))
                    sc.assume(t.lt(spot, n))

                    def rabi(p, e, m, T):
                        j = int(e.ev(spot))
                        v = p.real("pos")
                        rest = [p.rng.choice([F(0), F(1), v, v + 1, p.real("pos")]) if p.rng.random() < 0.6 else F(0)
                                for _ in range(m)]
                        return [(-v if "negative Rabi" in label else v) if i == j else rest[i] for i in range(m)]

                    def det(p, e, m, T):
                        if "together" not in label:
                            return [F(0)] * m
                        j, v = int(e.ev(spot)), p.real("pos")
                        every = p.rng.random() < 0.4
                        return [sign * v if i == j or every else p.rng.choice([F(0), F(0), v, -v]) for i in range(m)]

                    kw, f = generic(sc, n, rabi_rotations=rabi, detuning_rotations=det)
                    rr, dr = f["rabi_rotations"], f["detuning_rotations"]
                    if "together" in label:
                        side = t.lt if "negative" in label else t.gt
                        bad = lambda i: t.land(t.gt(rr(i), ZERO), side(dr(i), ZERO))
                    else:
                        bad = lambda i: t.lt(rr(i), ZERO)
                    sc.assume(bad(spot))
                    e = call(sc, sc.call("DynamicDecouplingSequence", **kw), maximum_rabi_rate=sc.real("rate", "pos"),
                             maximum_detuning_rate=sc.real("drate", "pos"),
                             minimum_segment_duration=sc.real("least", "nonneg"))
                    refused(ck, o, sc, e)

                ck.guard("%s%s" % (label, ", any number of operations" if at is None else ", operation %d of %d" % (
                    at + 1, k)), rule, WHERE, unreal)

    for w in ("Y", "Z", "M", "XY", "ZX", "XM", "IZ", "YI", "MN", "NYX", "XZN", "PMX", "XXXXXY", "ZNXIX", "XXMXX"):
        for first, last in ((False, False), (True, False), (False, True)) if len(w) == 1 else ((False, False), (True, True)):

            def placed(o, a=(w, first, last, (1,) * conv.gap_count(w, first, last), False)):
                sc = ck.scenario(o.name)
                lay = conv.Layout(sc, *a)
                e = conv.convert(sc, lay, lay.sequence())
                refused(ck, o, sc, e)

            ck.guard("operations [%s]%s%s" % (w, ", first at start" if first else "", ", last at end" if last else ""),
                     rule, WHERE, placed)

    # offsets out of order
    for k in (2, 3, 5, 9):
        for at in range(k - 1):
            for equal in (False, True):
                for first in (False, True):
                    for last in (False, True):
                        if k > 3 and first != last:
                            continue

                        def order(o, k=k, at=at, equal=equal, first=first, last=last):
                            sc = ck.scenario(o.name)
                            xs, pos = [], ZERO
                            for i in range(k):
                                if i or not first:
                                    pos = t.add(pos, sc.real("step%d" % i, "pos"))
                                xs.append(pos)
                            tau = pos if last else t.add(pos, sc.real("step%d" % k, "pos"))
                            if equal:
                                j = at if at or not last else 1
                                xs[at], xs[at + 1] = xs[j], xs[j]
                            else:
                                xs[at], xs[at + 1] = xs[at + 1], xs[at]
                            mk = lambda v: sc.S.elems(v, "float", "ndarray")
                            zeros = [ZERO] * k
                            out = sc.call("DynamicDecouplingSequence", duration=tau, offsets=mk(xs),
                                          rabi_rotations=mk(zeros), azimuthal_angles=mk(zeros),
                                          detuning_rotations=mk(zeros))
                            e = call(sc, out, maximum_rabi_rate=sc.real("rate", "pos"),
                                     maximum_detuning_rate=sc.real("drate", "pos"))
                            refused(ck, o, sc, e)

                        ck.guard("operations %d and %d of %d %s%s%s" % (
                            at + 1, at + 2, k, "coincide" if equal else "swapped", ", from the start" if first else "",
                            ", to the end" if last else ""), rule, WHERE, order)

    # pulses that do not fit
    long = [(w, e, e) for w in ("XNXIX", "XXXXXXX", "NXPXINXX")[:3 if ck.thorough else 1] for e in (False, True)] + [("NXPXINXX", True, True)]
    for n in (1, 2, 3, None):
        for w, first, last in conv.layouts(n, "XPNI" if n == 1 or (n == 2 and ck.thorough) else "XNI") if n else long:
            k = conv.gap_count(w, first, last)
            if not w.strip("I") or (n == 3 and not ck.thorough and (w not in ("XNX", "NIX") or first == last)):
                continue
            for j in range(k):
                for least in (False, True):
                    around = (("I" if j + int(first) == 0 else w[j + int(first) - 1]) +
                              (w[j + int(first)] if j + int(first) < len(w) else "I"))
                    if not least and not around.strip("I") or least and n is None:
                        continue

                    def tight(o, a=(w, first, last, (1,) * k, least), j=j):
                        sc = ck.scenario(o.name)
                        lay = conv.Layout(sc, *a, short=j)
                        sc.assume(*[t.land(t.ge(x, ZERO), t.le(x, lay.tau)) for x in lay.offsets])
                        sc.assume(t.gt(lay.tau, ZERO))
                        if not a[1]:
                            sc.assume(t.gt(lay.offsets[0], ZERO))
                        if not a[2]:
                            sc.assume(t.lt(lay.offsets[-1], lay.tau))
                        e = conv.convert(sc, lay, lay.sequence())
                        refused(ck, o, sc, e)

                    ck.guard("gap %d too short, operations [%s]%s%s, minimum segment %s" % (
                        j + 1, w, ", first at start" if first else "", ", last at end" if last else "",
                        "positive" if least else "zero"), rule, WHERE, tight)
