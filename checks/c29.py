"""Calls leave their arguments and the object they are called on unchanged."""

from pyvg import terms as t
from pyvg.check import A, E, L, R, Snap, freeze
from pyvg.terms import NONE, q

from . import conv
from .c25 import generic
from .common import DRIVEN, control, sequence

MINIMUM = 130
RULE = "argument arrays and lists, and the attributes of the object, are the same after the call as before"
CONTROL = ("durations", "rabi_rates", "azimuthal_angles", "detunings")
SEQUENCE = ("offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations")


def held(sc, out, refs):
    """Current contents of argument values after a call."""
    if out.st is None:
        return Snap("opq", "the call never returns")
    out.enter()
    return Snap("rec", {k: freeze(sc.I, v) for k, v in refs.items()})


def same(n, f, kind):
    return (A if kind == "ndarray" else L)(n, f)


def run(ck):
    # constructors
    for label, k in (("n", None), ("n=2", 2)):
        for kind in ("ndarray", "list"):
            for dtype in ("float", "int"):

                def build(o, k=k, kind=kind, dtype=dtype):
                    sc = ck.scenario(o.name)
                    n = sc.int("n", "pos") if k is None else q(k)
                    kw, f = {}, {}
                    for nm, sign in zip(CONTROL, ("pos", "nonneg", None, None)):
                        kw[nm], f[nm] = sc.array("c_" + nm + dtype[0], n, kind, dtype, sign)
                    out = sc.call("DrivenControl", **kw)
                    ck.equal(o, sc, out, held(sc, out, kw), R({nm: same(n, f[nm], kind) for nm in CONTROL}))

                ck.guard("control from %s of %s, %s" % (kind, dtype, label), RULE, "DrivenControl.__init__", build)

            def seq(o, k=k, kind=kind):
                sc = ck.scenario(o.name)
                n = sc.int("n", "nonneg") if k is None else q(k)
                kw, f = generic(sc, n, kind)
                out = sc.call("DynamicDecouplingSequence", **kw)
                refs = {a: kw[a] for a in SEQUENCE}
                ck.equal(o, sc, out, held(sc, out, refs), R({a: same(n, f[a], kind) for a in SEQUENCE}))

            ck.guard("sequence from %s, %s" % (kind, label), RULE, "DynamicDecouplingSequence.__init__", seq)

    # observers of a driven control
    observers = [(a, None) for a in ("number_of_segments", "maximum_rabi_rate", "maximum_detuning", "amplitude_x",
                                     "amplitude_y", "angles", "directions", "times", "maximum_duration",
                                     "minimum_duration", "duration")]
    observers += [("__str__", []), ("__repr__", [])]
    for co in ("cartesian", "cylindrical"):
        for dim in (t.TRUE, t.FALSE):
            observers.append(("export", {"coordinates": t.string(co), "dimensionless_rabi_rate": dim}))
        for ft in ("CSV", "JSON"):
            observers.append(("export_to_file", {"coordinates": t.string(co), "file_type": t.string(ft)}))
    for label, k in (("n", None), ("n=2", q(2))):
        for name, args in observers:
            for given in (DRIVEN, ()):
                if given == () and k is not None:
                    continue

                def look(o, k=k, name=name, args=args, given=given):
                    o.total = False
                    sc = ck.scenario(o.name)
                    n = k if k is not None else sc.int("n", "pos")
                    tag = sc.str("label")
                    out, f = control(sc, n, given, name=tag)
                    e = observe(sc, out, name, args)
                    got = after(sc, e, out, CONTROL + ("name",))
                    ck.equal(o, sc, e, got, R(dict({a: A(n, f[a]) for a in CONTROL}, name=tag)), may_raise=True)

                ck.guard("control.%s(%s), %s%s" % (name, words(args), label, "" if given else ", durations only"), RULE,
                         "DrivenControl." + name, look)

    # observers of a sequence
    observers = [("__str__", []), ("__repr__", []), ("export", [])]
    for label, k in (("n", None), ("n=0", q(0)), ("n=2", q(2))):
        for name, args in observers:

            def look(o, k=k, name=name, args=args):
                o.total = False
                sc = ck.scenario(o.name)
                n = k if k is not None else sc.int("n", "nonneg")
                tag = sc.str("label")
                out, f = sequence(sc, n, name=tag)
                e = observe(sc, out, name, args)
                got = after(sc, e, out, SEQUENCE + ("name", "duration"))
                ck.equal(o, sc, e, got, R(dict({a: A(n, f[a]) for a in SEQUENCE}, name=tag, duration=f["duration"])),
                         may_raise=True)

            ck.guard("sequence.%s(%s), %s" % (name, words(args), label), RULE, "DynamicDecouplingSequence." + name, look)

    # conversion
    for w, first, last in [("", 0, 0), ("X", 0, 0), ("N", 1, 0), ("P", 0, 1), ("XX", 1, 1), ("NX", 0, 0), ("XIP", 0, 0), ("x", 0, 0), ("n", 0, 0), ("Xx", 0, 0), ("pX", 1, 1), ("NxP", 0, 0)]:
        for least in (False, True):
            for how in ("convert", "CSV", "JSON"):
                if how != "convert" and least:
                    continue

                def conversion(o, w=w, first=bool(first), last=bool(last), least=least, how=how):
                    sc = ck.scenario(o.name)
                    lay = conv.Layout(sc, w, first, last, (1,) * conv.gap_count(w, first, last), least)
                    name = sc.str("label")
                    out = lay.sequence(name)
                    if how == "convert":
                        e = conv.convert(sc, lay, out)
                    else:
                        e = sc.method(out, "export_to_file", sc.str("path"), file_type=t.string(how),
                                      maximum_rabi_rate=lay.rate, maximum_detuning_rate=lay.drate)
                    got = after(sc, e, out, SEQUENCE + ("name", "duration"))

                    cols = [lay.offsets] + [[r[c] for r in lay.rot] for c in range(3)]
                    ck.equal(o, sc, e, got, R(dict({a: E(x) if x else A(q(0), lambda i: NONE)
                                                    for a, x in zip(SEQUENCE, cols)},
                                                   name=name, duration=lay.tau)))

                ck.guard("%s of [%s]%s%s, minimum segment %s" % (
                    "conversion" if how == "convert" else how + " file", w, ", first at start" if first else "",
                    ", last at end" if last else "", "positive" if least else "zero"), RULE,
                    "convert_dds_to_driven_control", conversion)


def words(args):
    if args is None:
        return "read"
    if isinstance(args, dict):
        return ", ".join(str(v.args[0]) if v.args else str(v) for v in args.values())
    return ""


def observe(sc, out, name, args):
    if args is None:
        out.enter()
        o = sc.S.call(lambda: sc.I.get_attr(out.value, name))
        o.scenario, o.base = sc, out
        return o
    if name == "export_to_file":
        return sc.method(out, name, sc.str("path"), **args)
    return sc.method(out, name, **(args or {}))


def after(sc, e, obj, names):
    """Attributes of obj in the state after e."""
    if e.st is None:
        return Snap("opq", "the call never returns")
    got = {}
    for nm in names:
        e.enter()
        o = sc.S.call(lambda: sc.I.get_attr(obj.value, nm))
        got[nm] = freeze(sc.I, o.value) if o.st is not None else Snap("opq", "attribute raises")
    e.enter()
    return Snap("rec", got)
