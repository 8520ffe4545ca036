"""Exported dictionary of a driven control."""

from pyvg import terms as t
from pyvg.check import D, L
from pyvg.terms import FALSE, ONE, TRUE, ZERO, q

from .common import DRIVEN, amax, control

MINIMUM = 40
RULE = "export() returns one entry per segment with the documented value and duration"


def expected(sc, n, f, coordinates, normalised):
    d, r, a, z = (f[x] for x in ("durations", "rabi_rates", "azimuthal_angles", "detunings"))
    top = amax(sc, n, r)
    scale = t.ite(t.land(normalised, t.ne(top, ZERO)), top, ONE)
    entry = lambda v: L(n, lambda i: D({"value": v(i), "duration": d(i)}))
    x = lambda i: t.div(t.mul(r(i), t.cos(a(i))), scale)
    y = lambda i: t.div(t.mul(r(i), t.sin(a(i))), scale)
    if coordinates == "cartesian":
        return D({"X amplitude": entry(x), "Y amplitude": entry(y), "Detuning": entry(z)})
    return D({"Rabi rate": entry(lambda i: t.add(x(i), t.mul(t.IMAG, y(i)))), "Detuning": entry(z)})


def run(ck):
    for label, k in (("n", None), ("n=1", q(1)), ("n=2", q(2)), ("n=3", q(3))):
        for given in (DRIVEN, ("rabi_rates",), ("detunings",), ()):
            if k is not None and given not in (DRIVEN,):
                continue
            for co in ("cartesian", "cylindrical"):
                for flag in ("default", "true", "false", "symbolic"):

                    def ob(o, k=k, given=given, co=co, flag=flag):
                        sc = ck.scenario(o.name)
                        n = k if k is not None else sc.int("n", "pos")
                        out, f = control(sc, n, given)
                        kw = {"coordinates": t.string(co)}
                        b = {"default": TRUE, "true": TRUE, "false": FALSE}.get(flag)
                        if b is None:
                            b = sc.bool("dimensionless")
                        if flag != "default":
                            kw["dimensionless_rabi_rate"] = b
                        e = sc.method(out, "export", **kw)
                        ck.equal(o, sc, e, sc.value(e), expected(sc, n, f, co, b))

                    ck.guard("export(%s, dimensionless=%s), %s, given %s" % (
                        co, flag, label, "/".join(given) or "durations only"), RULE, "DrivenControl.export", ob)

    def default(o):
        sc = ck.scenario(o.name)
        n = sc.int("n", "pos")
        out, f = control(sc, n)
        e = sc.method(out, "export")
        ck.equal(o, sc, e, sc.value(e), expected(sc, n, f, "cylindrical", TRUE))

    ck.guard("export() with default arguments", RULE, "DrivenControl.export", default)

    def other(o, only=False):
        sc = ck.scenario(o.name)
        n = sc.int("n", "pos")
        out, f = control(sc, n)
        co = sc.str("coordinates", lambda p, e: p.rng.choice(["cartesian", "cylindrical", "polar", "", "Cartesian"]))
        e = sc.method(out, "export", coordinates=co)
        if only:
            ck.only(o, sc, e)
            return
        ck.rejects(o, sc, e, t.land(t.ne(co, t.string("cartesian")), t.ne(co, t.string("cylindrical"))))

    ck.guard("export() rejects other coordinates", RULE, "DrivenControl.export", other)
    ck.guard("export() error class", "other coordinates raise the package's argument error", "DrivenControl.export",
             lambda o: other(o, only=True))
