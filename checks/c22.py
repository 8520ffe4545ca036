"""Pre- and post-rotations of every predefined decoupling sequence."""

from pyvg import terms as t
from pyvg.terms import q

from . import dds

MINIMUM = 170
BUDGET = 600
RULE = "half-pi pulses are added at both ends and the closing one restores the initial state"


def run(ck):
    dds.obligation(ck, "ramsey", "ramsey", lambda sc: {},
                   lambda sc, kw: dds.Pulses(q(0), lambda i: q(0), lambda i: dds.X, q(0)), True, RULE, True)
    dds.obligation(ck, "spin echo", "spin_echo", lambda sc: {},
                   lambda sc, kw: dds.explicit([(t.div(q(1), q(2)), dds.X)]), True, RULE, True)
    for s in dds.COUNTED:
        for k in [None] + list(range(1, 25 if ck.thorough else 13)):
            dds.obligation(
                ck, "%s, %s pulses" % (s, "m" if k is None else k), s,
                lambda sc, k=k: {"offset_count": sc.int("m", "pos") if k is None else q(k)},
                lambda sc, kw, s=s: dds.counted(s, kw["offset_count"]), True, RULE, k is None)
    top = 7 if ck.thorough else 6
    for a in range(1, top):
        for b in range(1, top):
            def pulses(sc, kw, a=a, b=b):
                p = dds.quadratic(q(a), q(b))
                p.xz = q((b + a * (b + 1)) % 2)
                return p

            dds.obligation(ck, "quadratic, %d inner and %d outer" % (a, b), "quadratic",
                           lambda sc, a=a, b=b: {"inner_offset_count": q(a), "outer_offset_count": q(b)}, pulses, True,
                           RULE)
    for k in list(range(1, 129 if ck.thorough else 65)):
        dds.obligation(ck, "walsh, Paley order %d" % k, "walsh", lambda sc, k=k: {"paley_order": q(k)},
                       lambda sc, kw, k=k: dds.walsh(k), True, RULE)
    for k in range(1, 8 if ck.thorough else 7):
        dds.obligation(ck, "X concatenated, order %d" % k, "x_concatenated",
                       lambda sc, k=k: {"concatenation_order": q(k)}, lambda sc, kw, k=k: dds.x_concatenated(k), True,
                       RULE)
    for k in range(1, 4):
        dds.obligation(ck, "XY concatenated, order %d" % k, "xy_concatenated",
                       lambda sc, k=k: {"concatenation_order": q(k)}, lambda sc, kw, k=k: dds.xy_concatenated(k), True,
                       RULE)
    dds.obligation(ck, "ramsey", "ramsey", lambda sc: {},
                   lambda sc, kw: dds.Pulses(q(0), lambda i: q(0), lambda i: dds.X, q(0)), True, RULE, whole=True)
    dds.obligation(ck, "spin echo", "spin_echo", lambda sc: {},
                   lambda sc, kw: dds.explicit([(t.div(q(1), q(2)), dds.X)]), True, RULE, whole=True)
    for s in dds.COUNTED:
        for k in (None, 1, 2, 5):
            dds.obligation(
                ck, "%s, %s pulses" % (s, "m" if k is None else k), s,
                lambda sc, k=k: {"offset_count": sc.int("m", "pos") if k is None else q(k)},
                lambda sc, kw, s=s: dds.counted(s, kw["offset_count"]), True, RULE, whole=True)
    for k in (1, 2, 5):
        dds.obligation(ck, "walsh, Paley order %d" % k, "walsh", lambda sc, k=k: {"paley_order": q(k)},
                       lambda sc, kw, k=k: dds.walsh(k), True, RULE, whole=True)
