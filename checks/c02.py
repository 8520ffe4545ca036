"""Driven controls store what they are given."""

from pyvg import terms as t
from pyvg.check import A, R
from pyvg.terms import NONE, ZERO, q

from .common import DRIVEN, control, lengths

MINIMUM = 40
RULE = "stored arrays equal the inputs; omitted inputs are zero on every segment"


def run(ck):
    sizes = [("n", None), ("n=1", q(1)), ("n=3", q(3))]
    for mask in range(8):
        given = [x for b, x in enumerate(DRIVEN) if mask >> b & 1]
        for label, k in sizes:
            for kind, dtype in (("ndarray", "float"), ("list", "float"), ("ndarray", "int"), ("list", "int")):
                if dtype == "int" and (k is not None or mask != 7):
                    continue
                for named in (False, True):
                    if named != (mask in (0, 7)):
                        continue

                    def ob(o, given=given, k=k, kind=kind, dtype=dtype, named=named):
                        sc = ck.scenario(o.name)
                        n = k if k is not None else sc.int("n", "pos")
                        name = sc.str("label") if named else None
                        out, f = control(sc, n, given, kind, name, dtype)
                        spec = R({
                            "durations": A(n, f["durations"]), "rabi_rates": A(n, f["rabi_rates"]),
                            "azimuthal_angles": A(n, f["azimuthal_angles"]),
                            "detunings": A(n, f["detunings"]), "name": name if named else NONE})
                        ck.equal(o, sc, out, sc.attrs(out, list(spec.fields)), spec)

                    ck.guard("fields of DrivenControl(%s) from %s %s, %s%s" % (
                        ", ".join(["durations"] + given), dtype, kind, label, ", named" if named else ""),
                        RULE, "DrivenControl.__init__", ob)
