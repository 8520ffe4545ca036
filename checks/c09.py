"""Segments of corpse, corpse_in_bb1 and corpse_in_sk1 controls."""

from .values import run_schemes

MINIMUM = 9


def run(ck):
    run_schemes(ck, ("corpse", "corpse_in_bb1", "corpse_in_sk1"))
