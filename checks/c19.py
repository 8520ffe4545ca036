"""Quadratic decoupling sequences."""

from pyvg import terms as t
from pyvg.terms import q

from . import dds

MINIMUM = 40
RULE = "inner Z pulses and outer X pulses sit at the nested Uhrig times for all pulse numbers"


def run(ck):
    top = 9 if ck.thorough else 7
    sizes = [None] + [(a, b) for a in range(1, top) for b in range(1, top)]
    for s in sizes:
        def args(sc, s=s):
            if s is None:
                return {"inner_offset_count": sc.int("mi", "pos"), "outer_offset_count": sc.int("mo", "pos")}
            return {"inner_offset_count": q(s[0]), "outer_offset_count": q(s[1])}

        dds.obligation(ck, "quadratic, inner/outer %s" % ("symbolic" if s is None else "%d/%d" % s), "quadratic", args,
                       lambda sc, kw: dds.quadratic(kw["inner_offset_count"], kw["outer_offset_count"]), False, RULE,
                       s is None)
        if s in (None, (1, 1), (2, 3), (4, 1)):
            dds.obligation(ck, "quadratic, inner/outer %s" % ("symbolic" if s is None else "%d/%d" % s), "quadratic", args,
                           lambda sc, kw: dds.quadratic(kw["inner_offset_count"], kw["outer_offset_count"]), False, RULE,
                           whole=True)
