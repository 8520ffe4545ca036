"""Files written by driven controls."""

from pyvg import terms as t
from pyvg.check import D, L, R
from pyvg.terms import NONE, ONE, TRUE, ZERO, q

from .common import DRIVEN, amax, control

MINIMUM = 60
RULE = "the written document has exactly the documented columns/keys and values"


def columns(sc, n, f, co):
    d, r, a, z = (f[x] for x in ("durations", "rabi_rates", "azimuthal_angles", "detunings"))
    top = f["top"] if "top" in f else amax(sc, n, r)
    scale = t.ite(t.ne(top, ZERO), top, ONE)
    cols = {"duration": d, "detuning": z}
    if co == "cartesian":
        cols["amplitude_x"] = lambda i: t.div(t.mul(r(i), t.cos(a(i))), scale)
        cols["amplitude_y"] = lambda i: t.div(t.mul(r(i), t.sin(a(i))), scale)
    else:
        cols["rabi_rates"] = lambda i: t.div(r(i), scale)
        cols["azimuthal_angles"] = a
    return cols, top


def document(sc, n, f, ft, co, path, name):
    cols, top = columns(sc, n, f, co)
    head = {"files written": ONE, "path": path, "mode": t.string("truncate")}
    if ft == "JSON":
        body = {k: L(n, v) for k, v in cols.items()}
        body["maximum_rabi_rate"] = top
        if name is not None:
            body["name"] = name
        head["json"] = D(body)
    else:
        cols["maximum_rabi_rate"] = lambda i: top
        order = sorted(cols)
        head["delimiter"] = t.string(",")
        head["header"] = L(q(len(order)), lambda j: t.string(order[int(j.args[0])]))
        head["rows"] = L(n, lambda i: L(q(len(order)), lambda j: cols[order[int(j.args[0])]](i)))
    return R(head)


def whole(ck, label, k, ft, co):
    """Controls built from whole numbers."""
    for kind in ("ndarray", "list"):

        def ob(o):
            sc = ck.scenario(o.name)
            n = k if k is not None else sc.int("n", "pos")
            path = sc.str("path")
            out, f = control(sc, n, kind=kind, dtype="int")
            e = sc.method(out, "export_to_file", path, file_type=t.string(ft), coordinates=t.string(co))
            ck.equal(o, sc, e, sc.files(e), document(sc, n, f, ft, co, path, None))

        ck.guard("%s file, %s, %s, whole numbers in %s" % (ft, co, label, kind), RULE, "DrivenControl.export_to_file", ob)


def run(ck):
    for label, k in (("n", None), ("n=1", q(1)), ("n=2", q(2)), ("n=3", q(3))):
        for named in (False, True):
            for given in (DRIVEN, ("rabi_rates",), ("detunings",), ()):
                if k is not None and given != DRIVEN:
                    continue
                for ft in ("CSV", "JSON"):
                    for co in ("cartesian", "cylindrical"):
                        if given == DRIVEN and not named:
                            whole(ck, label, k, ft, co)

                        def ob(o, k=k, given=given, named=named, ft=ft, co=co):
                            sc = ck.scenario(o.name)
                            n = k if k is not None else sc.int("n", "pos")
                            name = sc.str("label") if named else None
                            path = sc.str("path")
                            out, f = control(sc, n, given, name=name)
                            e = sc.method(out, "export_to_file", path, file_type=t.string(ft),
                                          coordinates=t.string(co))
                            got = sc.files(e)
                            ck.equal(o, sc, e, got, document(sc, n, f, ft, co, path, name))

                        ck.guard("%s file, %s, %s, %s, given %s" % (
                            ft, co, label, "named" if named else "unnamed", "/".join(given) or "durations only"),
                            RULE, "DrivenControl.export_to_file", ob)

    def default(o):
        sc = ck.scenario(o.name)
        n = sc.int("n", "pos")
        path = sc.str("path")
        out, f = control(sc, n)
        e = sc.method(out, "export_to_file", path)
        got = sc.files(e)
        ck.equal(o, sc, e, got, document(sc, n, f, "CSV", "cylindrical", path, None))

    ck.guard("default file type and coordinates", RULE, "DrivenControl.export_to_file", default)
