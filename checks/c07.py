"""Text forms of driven controls."""

from pyvg import terms as t
from pyvg.check import R
from pyvg.terms import NONE, ONE, PI, TRUE, ZERO, q

from .common import DRIVEN, amax, control, vsum

MINIMUM = 20


def join(sep, n, fn):
    if n.op == "q":
        k = int(n.args[0])
        out = []
        for i in range(k):
            if i:
                out.append(t.string(sep))
            out.append(fn(q(i)))
        return t.cat(*out)
    i = t.fresh("z", "int")
    return t.mk("join", t.string(sep), n, t.abstract(i, fn(i)))


def text(sc, n, f, name):
    d, r, a, z = (f[x] for x in ("durations", "rabi_rates", "azimuthal_angles", "detunings"))
    top = amax(sc, n, r)
    ztop = amax(sc, n, lambda i: t.absv(z(i)))
    tot = vsum(n, d)
    S = t.string
    rel = lambda fn, m: (lambda i: t.ite(t.eq(m, ZERO), S("0"), t.tostr(t.div(fn(i), m))))
    parts = [S("Rabi Rates = ["), join(",", n, rel(r, top)), S("] x "), t.tostr(top),
             S("\nAzimuthal Angles = ["), join(",", n, lambda i: t.tostr(t.div(a(i), PI))), S("] x pi"),
             S("\nDetunings = ["), join(",", n, rel(z, ztop)), S("] x "), t.tostr(ztop),
             S("\nDurations = ["), join(",", n, lambda i: t.tostr(t.div(d(i), tot))), S("] x "), t.tostr(tot)]
    if name is not None:
        parts = [name, S(":\n")] + parts
    return t.cat(*parts)


def run(ck):
    for label, k in (("n", None), ("n=1", q(1)), ("n=2", q(2)), ("n=3", q(3))):
        for named in (False, True):
            for given in (DRIVEN, ("rabi_rates",), ("detunings",), ()):
                if k is not None and given != DRIVEN:
                    continue

                def ob(o, k=k, given=given, named=named):
                    sc = ck.scenario(o.name)
                    n = k if k is not None else sc.int("n", "pos")
                    name = sc.str("label") if named else None
                    out, f = control(sc, n, given, name=name)
                    e = sc.method(out, "__str__")
                    ck.equal(o, sc, e, sc.value(e), text(sc, n, f, name))

                ck.guard("str, %s, %s, given %s" % (label, "named" if named else "unnamed", "/".join(
                    given) or "durations only"), "printed numbers times printed scale give the stored values",
                    "DrivenControl.__str__", ob)

                def rp(o, k=k, given=given, named=named):
                    sc = ck.scenario(o.name)
                    n = k if k is not None else sc.int("n", "pos")
                    name = sc.str("label") if named else None
                    out, f = control(sc, n, given, name=name)
                    e = sc.method(out, "__repr__")
                    I = sc.I
                    e.enter()
                    parts = [t.string("DrivenControl(")]
                    from pyvg.npmodel import repr_value

                    for j, nm in enumerate(("rabi_rates", "azimuthal_angles", "detunings", "durations", "name")):
                        v = repr_value(I, I.get_attr(out.value, nm))
                        parts += [t.string((",%s=" if j else "%s=") % nm), v]
                    parts.append(t.string(")"))
                    ck.equal(o, sc, e, sc.value(e), t.cat(*parts))

                ck.guard("repr, %s, %s, given %s" % (label, "named" if named else "unnamed", "/".join(
                    given) or "durations only"), "repr names the class and every stored field in order",
                    "DrivenControl.__repr__", rp)
