"""Segments of scrofulous, corpse_in_scrofulous and wamf1 controls."""

from .values import run_rounded, run_schemes

MINIMUM = 36


def run(ck):
    run_schemes(ck, ("scrofulous", "corpse_in_scrofulous", "wamf1"))
    run_rounded(ck, ("scrofulous", "corpse_in_scrofulous", "wamf1"))
