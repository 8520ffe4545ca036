"""Exported dictionary and text forms of decoupling sequences."""

from pyvg import terms as t
from pyvg.check import D, L
from pyvg.npmodel import repr_value
from pyvg.terms import PI, ZERO, q

from .c07 import join
from .common import sequence

MINIMUM = 30


def run(ck):
    for label, k in (("n", None), ("n=0", q(0)), ("n=1", q(1)), ("n=2", q(2)), ("n=3", q(3))):
        for named in (False, True):

            def build(o, k=k, named=named):
                sc = ck.scenario(o.name)
                n = k if k is not None else sc.int("n", "nonneg")
                name = sc.str("label") if named else None
                out, f = sequence(sc, n, name=name)
                return sc, n, name, out, f

            def export(o, build=build):
                sc, n, name, out, f = build(o)
                e = sc.method(out, "export")
                r, a, z, x = (f[y] for y in ("rabi_rotations", "azimuthal_angles", "detuning_rotations", "offsets"))
                spec = D({
                    "Rabi": L(n, lambda i: D({"rotation": t.mul(r(i), t.add(t.cos(a(i)), t.mul(t.IMAG, t.sin(a(i))))),
                                              "offset": x(i)})),
                    "Detuning": L(n, lambda i: D({"rotation": z(i), "offset": x(i)}))})
                ck.equal(o, sc, e, sc.value(e), spec)

            ck.guard("export, %s%s" % (label, ", named" if named else ""),
                     "one entry per offset with complex Rabi rotation, detuning rotation and offset",
                     "DynamicDecouplingSequence.export", export)

            def text(o, build=build):
                sc, n, name, out, f = build(o)
                e = sc.method(out, "__str__")
                S, T = t.string, f["duration"]
                rel = lambda fn, m: join(", ", n, lambda i: t.tostr(t.div(fn(i), m)))
                parts = [S("Duration = "), t.tostr(T),
                         S("\nOffsets = ["), rel(f["offsets"], T), S("] x "), t.tostr(T),
                         S("\nRabi Rotations = ["), rel(f["rabi_rotations"], PI), S("] x pi"),
                         S("\nAzimuthal Angles = ["), rel(f["azimuthal_angles"], PI), S("] x pi"),
                         S("\nDetuning Rotations = ["), rel(f["detuning_rotations"], PI), S("] x pi")]
                if name is not None:
                    parts = [name, S(":\n")] + parts
                ck.equal(o, sc, e, sc.value(e), t.cat(*parts))

            ck.guard("str, %s%s" % (label, ", named" if named else ""),
                     "printed numbers times printed scale give the stored values",
                     "DynamicDecouplingSequence.__str__", text)

            def rp(o, build=build):
                sc, n, name, out, f = build(o)
                e = sc.method(out, "__repr__")
                e.enter()
                parts = [t.string("DynamicDecouplingSequence(")]
                for j, nm in enumerate(("duration", "offsets", "rabi_rotations", "azimuthal_angles",
                                        "detuning_rotations", "name")):
                    parts += [t.string((",%s=" if j else "%s=") % nm), repr_value(sc.I, sc.I.get_attr(out.value, nm))]
                parts.append(t.string(")"))
                ck.equal(o, sc, e, sc.value(e), t.cat(*parts))

            ck.guard("repr, %s%s" % (label, ", named" if named else ""),
                     "repr names the class and every stored field in order",
                     "DynamicDecouplingSequence.__repr__", rp)
