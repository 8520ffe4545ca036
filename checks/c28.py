"""Files written by decoupling sequences."""

from pyvg import terms as t
from pyvg.terms import PI, TRUE, q

from . import conv
from .c05 import document

MINIMUM = 130
BUDGET = 600
RULE = "the file equals the export of the sequence converted at the given (default 2 pi) maximum rates"


def segments(lay):
    s = lay.segments()
    pick = lambda j: (lambda i: s[int(i.args[0])][j])
    top = t.vmax(*[x[1] for x in s])
    return q(len(s)), {"durations": pick(0), "rabi_rates": pick(1), "azimuthal_angles": pick(2), "detunings": pick(3),
                       "top": top}


def run(ck):
    for w, first, last in [("", 0, 0), ("I", 0, 0), ("X", 0, 0), ("N", 0, 0), ("P", 0, 1), ("X", 1, 0), ("XN", 0, 0),
                           ("NX", 1, 1), ("XX", 0, 1), ("XIP", 1, 0)]:
        for ft in ("CSV", "JSON"):
            for co in ("cylindrical", "cartesian"):
                for named in (False, True):
                    for default in (False, True):
                        if default and (named or co == "cartesian") and len(w) != 1:
                            continue

                        def ob(o, w=w, first=first, last=last, ft=ft, co=co, named=named, default=default):
                            sc = ck.scenario(o.name)
                            two_pi = t.mul(q(2), PI)
                            lay = conv.Layout(sc, w, bool(first), bool(last), (1,) * conv.gap_count(w, first, last),
                                              False, rates=(two_pi, two_pi) if default else None)
                            name, path = sc.str("label") if named else None, sc.str("path")
                            out = lay.sequence(name)
                            kw = {} if default else {"maximum_rabi_rate": lay.rate, "maximum_detuning_rate": lay.drate}
                            e = sc.method(out, "export_to_file", path, file_type=t.string(ft), coordinates=t.string(co),
                                          **kw)
                            n, f = segments(lay)
                            ck.equal(o, sc, e, sc.files(e), document(sc, n, f, ft, co, path, name))

                        ck.guard("%s %s, operations [%s]%s%s, %s, %s rates" % (
                            ft, co, w, ", first at start" if first else "", ", last at end" if last else "",
                            "named" if named else "unnamed", "default" if default else "given"), RULE,
                            "DynamicDecouplingSequence.export_to_file", ob)

    def plain(o):
        sc = ck.scenario(o.name)
        two_pi = t.mul(q(2), PI)
        lay = conv.Layout(sc, "X", False, False, (1, 1), False, rates=(two_pi, two_pi))
        path = sc.str("path")
        e = sc.method(lay.sequence(), "export_to_file", path)
        n, f = segments(lay)
        ck.equal(o, sc, e, sc.files(e), document(sc, n, f, "CSV", "cylindrical", path, None))

    ck.guard("all defaults", RULE, "DynamicDecouplingSequence.export_to_file", plain)

    for what in ("file type", "file format", "coordinates"):
        def bad(o, what=what):
            sc = ck.scenario(o.name)
            lay = conv.Layout(sc, "X", False, False, (1, 1), False)
            text = sc.str("word")
            known = {"file type": ("CSV", "JSON"), "file format": ("Q-CTRL expanded",),
                     "coordinates": ("cylindrical", "cartesian")}[what]
            key = {"file type": "file_type", "file format": "file_format", "coordinates": "coordinates"}[what]
            unknown = t.land(*[t.lnot(t.eq(text, t.string(k))) for k in known])
            if what == "coordinates":
                sc.assume(unknown)
                unknown = TRUE
            e = sc.method(lay.sequence(), "export_to_file", sc.str("path"), maximum_rabi_rate=lay.rate,
                          maximum_detuning_rate=lay.drate, **{key: text})
            ck.rejects(o, sc, e, unknown)

        ck.guard("unknown %s" % what, "raises exactly for unknown words", "DynamicDecouplingSequence.export_to_file", bad)
