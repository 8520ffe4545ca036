"""Acceptance of driven-control inputs."""

from pyvg import terms as t
from pyvg.terms import q

from .common import mostly, near

MINIMUM = 24
RULE = "construction raises exactly when the inputs break a documented constraint"
NAMES = ("rabi_rates", "azimuthal_angles", "detunings")


def run(ck):
    for kind in ("list", "ndarray"):
        for mask in range(8):
            given = [n for b, n in enumerate(NAMES) if mask >> b & 1]
            label = "DrivenControl(%s) from %s" % (", ".join(["durations"] + given), kind)

            def ob(o, given=given, kind=kind):
                sc = ck.scenario(o.name)
                n = sc.int("n", "pos")
                dv, d = sc.array("d", n, kind, draw=mostly("pos"))
                kw = {"durations": dv}
                bad = [sc.exists(n, lambda i: t.le(d(i), q(0)))]
                for g in given:
                    m = sc.int("m_" + g, "nonneg", draw=near(n))
                    v, f = sc.array("x_" + g, m, kind, draw=mostly("nonneg", True) if g == "rabi_rates" else None)
                    kw[g] = v
                    bad.append(t.ne(m, n))
                    if g == "rabi_rates":
                        bad.append(sc.exists(m, lambda i, f=f: t.lt(f(i), q(0))))
                out = sc.call("DrivenControl", **kw)
                ck.rejects(o, sc, out, t.lor(*bad))

            ck.guard(label, RULE, "DrivenControl.__init__", ob)

            def cls(o, given=given, kind=kind):
                sc = ck.scenario(o.name)
                n = sc.int("n", "pos")
                kw = {"durations": sc.array("d", n, kind)[0]}
                for g in given:
                    m = sc.int("m_" + g, "nonneg", draw=near(n))
                    kw[g] = sc.array("x_" + g, m, kind)[0]
                ck.only(o, sc, sc.call("DrivenControl", **kw))

            ck.guard(label + ": error class", "only ArgumentsValueError is raised", "DrivenControl.__init__", cls)
