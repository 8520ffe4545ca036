"""Ideal net operation of decoupling sequences with pre/post rotations."""

from pyvg import terms as t
from pyvg.check import Hole, as_spec
from pyvg.terms import ONE, PI, TRUE, ZERO, q

from . import dds, spin
from .c32 import SEQUENCES

MINIMUM = 60
RULE = "instantaneous rotations in time order compose to the identity or a rotation about z"
ARRAYS = ["rabi_rotations", "azimuthal_angles", "detuning_rotations"]


def operation(rabi, az, det):
    if rabi is ZERO:
        h = t.div(det, q(2))
        return (t.cos(h), ZERO, ZERO, t.sin(h))
    if det is not ZERO:
        raise Hole("operation with both rotations")
    return spin.term_rotation(rabi, az)


def run(ck):
    cases = [("ramsey", ()), ("spin_echo", ())]
    for s in dds.COUNTED:
        cases += [(s, (m,)) for m in range(1, 9)]
    cases += [("quadratic", (a, b)) for a in (1, 2, 3) for b in (1, 2, 3)]
    cases += [("walsh", (k,)) for k in list(range(1, 17)) + [21, 32, 63, 100, 255]]
    cases += [("x_concatenated", (k,)) for k in range(1, 6)] + [("xy_concatenated", (k,)) for k in (1, 2, 3)]
    if ck.thorough:
        cases += [(s, (m,)) for s in dds.COUNTED for m in (9, 10, 11, 12, 25, 40)]
        cases += [("walsh", (k,)) for k in range(17, 129)]
    for s, ks in cases:

        def ob(o, s=s, ks=ks):
            sc = ck.scenario(o.name)
            kw = {nm: q(k) for nm, k in zip(SEQUENCES[s], ks)}
            out = sc.call(dds.entry(s), duration=sc.real("tau", "pos"), pre_post_rotation=TRUE, **kw)
            f = [as_spec(v) for v in sc.attrs(out, ARRAYS).data.values()]
            if any(x.n.op != "q" for x in f):
                raise Hole("number of operations is not constant")
            net = (ONE, ZERO, ZERO, ZERO)
            for i in range(int(f[0].n.args[0])):
                net = spin.product(operation(*[x.fn(q(i)) for x in f]), net, mul=t.mul, add=t.add)
            ck.holds(o, sc, t.land(t.eq(net[1], ZERO), t.eq(net[2], ZERO)), out.facts, out.taint)

        ck.guard("%s %s" % (s, ", ".join(map(str, ks))), RULE, dds.entry(s), ob)
