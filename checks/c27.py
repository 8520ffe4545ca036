"""Conversion of a decoupling sequence: the time line of the resulting control."""

from pyvg import terms as t
from pyvg.check import E, R
from pyvg.terms import ONE, PI, ZERO, q

from . import conv
from .c26 import cases, title

MINIMUM = 1380
BUDGET = 600
RULE = "segments start at 0, pulses sit at their offsets and the control ends with the sequence"


def bounds(lay):
    """Boundaries of the segments, from the pulse positions alone."""
    n = len(lay.kinds)
    pts = [ZERO]
    for j in range(n):
        w, x = lay.width[j], lay.offsets[j]
        if j == 0 and lay.first:
            a, b = ZERO, w
        elif j == n - 1 and lay.last:
            a, b = t.sub(lay.tau, w), lay.tau
        else:
            a, b = t.sub(x, t.div(w, q(2))), t.add(x, t.div(w, q(2)))
        pts += [a, b]
    pts.append(lay.tau)
    out = [pts[0]]
    for p in pts[1:]:
        if t.sub(p, out[-1]) is not ZERO:
            out.append(p)
    return out


def run(ck):
    for case in cases(ck, "XPNI", 4 if ck.thorough else 3):

        def ob(o, a=case):
            sc = ck.scenario(o.name)
            lay = conv.Layout(sc, *a)
            e = conv.convert(sc, lay, lay.sequence())
            b = bounds(lay)
            got = sc.attrs(e, ["duration", "times"])
            ck.equal(o, sc, e, got, R({"duration": lay.tau, "times": E(b)}))

        ck.guard(title(*case), RULE, "convert_dds_to_driven_control", ob)
