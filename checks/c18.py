"""Ramsey, spin echo, Carr-Purcell, CPMG, Uhrig and periodic sequences."""

from pyvg import terms as t
from pyvg.terms import q

from . import dds

MINIMUM = 95
RULE = "pulse times and axes equal the closed form for every pulse number and duration"


def run(ck):
    for named in (False, True):
        for pp in (False, "default"):
            dds.obligation(ck, "ramsey, flag %s, named %s" % (pp, named), "ramsey", lambda sc: {},
                           lambda sc, kw: dds.Pulses(q(0), lambda i: q(0), lambda i: dds.X, q(0)), pp, RULE, named)
            dds.obligation(ck, "spin echo, flag %s, named %s" % (pp, named), "spin_echo", lambda sc: {},
                           lambda sc, kw: dds.explicit([(t.div(q(1), q(2)), dds.X)]), pp, RULE, named)
    for pp in (False, "default"):
        dds.obligation(ck, "spin echo, flag %s" % pp, "spin_echo", lambda sc: {},
                       lambda sc, kw: dds.explicit([(t.div(q(1), q(2)), dds.X)]), pp, RULE, whole=True)
    for s in dds.COUNTED:
        for k in (None, 1, 2, 5):
            dds.obligation(
                ck, "%s, %s pulses" % (s, "m" if k is None else k), s,
                lambda sc, k=k: {"offset_count": sc.int("m", "pos") if k is None else q(k)},
                lambda sc, kw, s=s: dds.counted(s, kw["offset_count"]), False, RULE, whole=True)
    small = range(1, 33 if ck.thorough else 17)
    for s in dds.COUNTED:
        for k in [None] + list(small):
            for pp in (False, "default"):
                if pp == "default" and k is not None:
                    continue
                dds.obligation(
                    ck, "%s, %s pulses, flag %s" % (s, "m" if k is None else k, pp), s,
                    lambda sc, k=k: {"offset_count": sc.int("m", "pos") if k is None else q(k)},
                    lambda sc, kw, s=s: dds.counted(s, kw["offset_count"]), pp, RULE, k is None)
