"""Segments of primitive, bb1 and sk1 controls."""

from .values import run_schemes

MINIMUM = 9


def run(ck):
    run_schemes(ck, ("primitive", "bb1", "sk1"))
