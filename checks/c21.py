"""Concatenated sequences."""

from pyvg import terms as t
from pyvg.terms import q

from . import dds

MINIMUM = 19
RULE = "pulses equal the concatenation recursion with coinciding pulses multiplied"


def run(ck):
    for k in range(1, (11 if ck.thorough else 10)):
        dds.obligation(ck, "X concatenated, order %d" % k, "x_concatenated",
                       lambda sc, k=k: {"concatenation_order": q(k)}, lambda sc, kw, k=k: dds.x_concatenated(k), False,
                       RULE, k == 1)
    for k in range(1, 5):
        dds.obligation(ck, "XY concatenated, order %d" % k, "xy_concatenated",
                       lambda sc, k=k: {"concatenation_order": q(k)}, lambda sc, kw, k=k: dds.xy_concatenated(k), False,
                       RULE, k == 1)
    for k in range(1, 4):
        dds.obligation(ck, "X concatenated, order %d" % k, "x_concatenated",
                       lambda sc, k=k: {"concatenation_order": q(k)}, lambda sc, kw, k=k: dds.x_concatenated(k), False,
                       RULE, whole=True)
        dds.obligation(ck, "XY concatenated, order %d" % k, "xy_concatenated",
                       lambda sc, k=k: {"concatenation_order": q(k)}, lambda sc, kw, k=k: dds.xy_concatenated(k), False,
                       RULE, whole=True)
