"""Derived quantities of a driven control."""

from fractions import Fraction

from pyvg import terms as t
from pyvg.check import A, R
from pyvg.pyfuncs import Snap
from pyvg.terms import NONE, ONE, ZERO, q

from .common import DRIVEN, amax, amin, control, vsum

MINIMUM = 30
RULE = "accessor equals its documented formula in the stored segments"


def formulas(sc, n, f):
    d, r, a, z = (f[x] for x in ("durations", "rabi_rates", "azimuthal_angles", "detunings"))
    return {
        "number_of_segments": n,
        "maximum_rabi_rate": amax(sc, n, r),
        "maximum_detuning": amax(sc, n, z),
        "amplitude_x": A(n, lambda i: t.mul(r(i), t.cos(a(i)))),
        "amplitude_y": A(n, lambda i: t.mul(r(i), t.sin(a(i)))),
        "angles": A(n, lambda i: t.mul(t.sqrt(t.add(t.ipow(r(i), 2), t.ipow(z(i), 2))), d(i))),
        "times": A(t.add(n, ONE), lambda i: vsum(i, d)),
        "maximum_duration": amax(sc, n, d),
        "minimum_duration": amin(sc, n, d),
        "duration": vsum(n, d),
    }


def run(ck):
    for label, k in (("n", None), ("n=1", q(1)), ("n=2", q(2)), ("n=3", q(3))):
        for given in (DRIVEN, ("rabi_rates",), ("detunings",), ()):
            if k is not None and given not in (DRIVEN, ()):
                continue
            names = ["number_of_segments", "maximum_rabi_rate", "maximum_detuning", "amplitude_x", "amplitude_y",
                     "angles", "times", "maximum_duration", "minimum_duration", "duration", "directions", "idle directions"]
            for nm in names:

                def ob(o, k=k, given=given, nm=nm):
                    sc = ck.scenario(o.name)
                    n = k if k is not None else sc.int("n", "pos")
                    out, f = control(sc, n, given)
                    if "directions" in nm:
                        directions(ck, o, sc, out, n, f, nm.startswith("idle"))
                        return
                    ck.equal(o, sc, out, sc.attr(out, nm), formulas(sc, n, f)[nm])

                if nm == "directions" and not given:
                    continue
                ck.guard("%s, %s, given %s" % (nm, label, "/".join(given) or "durations only"), RULE,
                         "DrivenControl." + nm.split()[-1], ob)


def directions(ck, o, sc, out, n, f, idle):
    """Row i is the unit vector of segment i; rows of idle segments are zero."""
    r, a, z = (f[x] for x in ("rabi_rates", "azimuthal_angles", "detunings"))
    amp = lambda i: t.sqrt(t.add(t.ipow(r(i), 2), t.ipow(z(i), 2)))
    if n.op == "q":
        i = t.sub(n, ONE)
    else:
        i = t.fresh("row", "int", sign="nonneg")
        sc.scn.sym(i, lambda p, e: Fraction(p.rng.randrange(max(1, e.count(n)))))
    code = sc.attr(out, "directions")
    if not (isinstance(code, Snap) and code.kind == "arr" and code.data.ndim == 2):
        ck.equal(o, sc, out, code, A(n, lambda j: ZERO))
        return
    m = code.data
    row = Snap("rec", {"rows": m.shape[0], "columns": m.shape[1], "x": m.get((i, q(0))), "y": m.get((i, q(1))),
                       "z": m.get((i, q(2)))})
    if idle:
        extra = [t.lt(i, n), t.eq(r(i), ZERO), t.eq(z(i), ZERO)]
        spec = R({"rows": n, "columns": q(3), "x": ZERO, "y": ZERO, "z": ZERO})
    else:
        extra = [t.lt(i, n), t.gt(amp(i), ZERO), t.ge(t.mul(q(10 ** 12), amp(i)), amax(sc, n, amp))]
        unit = lambda x: t.div(x, amp(i))
        spec = R({"rows": n, "columns": q(3), "x": unit(t.mul(r(i), t.cos(a(i)))),
                  "y": unit(t.mul(r(i), t.sin(a(i)))), "z": unit(z(i))})
    out.facts = out.facts.add(*extra)
    out.st.facts = out.st.facts.add(*extra)
    ck.equal(o, sc, out, row, spec)
