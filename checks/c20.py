"""Walsh sequences."""

from pyvg import terms as t
from pyvg.terms import q

from . import dds

MINIMUM = 90
BUDGET = 600
RULE = "pulses sit at the sign changes of the Walsh function of the given Paley order"


def orders(ck):
    quick = list(range(1, 65)) + [100, 127, 128, 129, 170, 255, 256, 257, 341, 511, 512, 513, 682, 1000,
                                   1023, 1024, 1025, 1365, 1706, 1999, 2000]
    if ck.thorough:
        quick += list(range(65, 300, 7)) + list(range(300, 2000, 97))
    return quick


def run(ck):
    for k in orders(ck):
        dds.obligation(ck, "walsh, Paley order %d" % k, "walsh", lambda sc, k=k: {"paley_order": q(k)},
                       lambda sc, kw, k=k: dds.walsh(k), False, RULE, k < 3)
    for k in (1, 2, 3, 6, 13, 40):
        dds.obligation(ck, "walsh, Paley order %d" % k, "walsh", lambda sc, k=k: {"paley_order": q(k)},
                       lambda sc, kw, k=k: dds.walsh(k), False, RULE, whole=True)
