"""Documented argument order and defaults of the public functions."""

from pyvg import terms as t
from pyvg.check import AnalysisBroken, D, L, R, Snap, freeze
from pyvg.terms import FALSE, NONE, PI, TRUE, ZERO, q

from . import conv, dds, driven
from .c12 import scene
from .c13 import rotation
from .c30 import mirror
from .common import control
from .values import angle

MINIMUM = 170
ORDER = "arguments given by position in the documented order mean the same as given by name"
DEFAULT = "leaving an optional argument out means its documented default"

PUBLIC = ["DrivenControl", "DynamicDecouplingSequence", "convert_dds_to_driven_control", "new_modulated_gaussian_control"]
PUBLIC += [driven.entry(s) for s in driven.ALL]
SEQUENCES = {"ramsey": (), "spin_echo": (), "carr_purcell": ("offset_count",), "cpmg": ("offset_count",), "uhrig": ("offset_count",),
             "periodic": ("offset_count",), "walsh": ("paley_order",), "quadratic": ("inner_offset_count", "outer_offset_count"),
             "x_concatenated": ("concatenation_order",), "xy_concatenated": ("concatenation_order",)}
PUBLIC += [dds.entry(s) for s in SEQUENCES]


def pair(ck, label, entry, make, fields, order, optional, start=0):
    """make(sc) -> (base outcome or None, dict of all arguments); order: documented positions; optional: name -> default.

    The spec is the call with everything given by name."""

    def run(sc, args, kwargs, base):
        if base is None:
            out = sc.call(entry, *args, **kwargs)
        else:
            out = sc.then(base, entry, *args, **kwargs)
        return out, sc.attrs(out, fields)

    def position(o):
        a = ck.scenario(o.name)
        base, kw = make(a)
        want = mirror(run(a, (), kw, base)[1])
        b = ck.scenario(o.name)
        base, kw = make(b)
        out, got = run(b, [kw[k] for k in order], {}, base)
        ck.equal(o, b, out, got, want)

    ck.guard("%s: by position" % label, ORDER, entry, position)
    for nm, default in optional.items():

        def omitted(o, nm=nm, default=default):
            a = ck.scenario(o.name)
            base, kw = make(a)
            kw[nm] = default
            want = mirror(run(a, (), kw, base)[1])
            b = ck.scenario(o.name)
            base, kw = make(b)
            del kw[nm]
            out, got = run(b, (), kw, base)
            ck.equal(o, b, out, got, want)

        ck.guard("%s: %s left out" % (label, nm), DEFAULT, entry, omitted)


def run(ck):
    for name in PUBLIC:

        def there(o, name=name):
            ck.session.export(name)
            ck.fact(o, True)

        ck.guard("%s is public" % name, "the package offers the documented name", name, there)

    for s in driven.ALL:
        for target in (driven.TARGETS if s in driven.TABLED or s == "wamf1" else [None]):

            def make(sc, s=s, target=target):
                return None, {"rabi_rotation": rotation(sc, s, target), "maximum_rabi_rate": sc.real("rate", "pos"),
                              "azimuthal_angle": sc.real("phi", draw=angle), "name": sc.str("label")}

            pair(ck, s if target is None else "%s, rotation %s" % (s, target), driven.entry(s), make, driven.FIELDS,
                 ["rabi_rotation", "maximum_rabi_rate", "azimuthal_angle", "name"], {"azimuthal_angle": ZERO, "name": NONE})

    for zero in (True, False):

        def gauss(sc, zero=zero):
            T_, rate, least, n = scene(sc, 3)
            f = ZERO
            if not zero:
                f = sc.real("f")
                sc.assume(t.ne(f, ZERO))
            return None, {"maximum_rabi_rate": rate, "minimum_segment_duration": least, "duration": T_,
                          "modulation_frequency": f}

        pair(ck, "modulated gaussian, frequency %s" % ("zero" if zero else "non-zero"), "new_modulated_gaussian_control",
             gauss, driven.FIELDS, ["maximum_rabi_rate", "minimum_segment_duration", "duration", "modulation_frequency"], {})

    for s, names in SEQUENCES.items():
        for flag in (FALSE, TRUE):

            def make(sc, s=s, names=names, flag=flag):
                kw = {"duration": sc.real("tau", "pos"), "pre_post_rotation": flag, "name": sc.str("label")}
                for i, nm in enumerate(names):
                    kw[nm] = sc.int("m", "pos") if s in dds.COUNTED else q(3 - i)
                return None, kw

            pair(ck, "%s, pre/post %s" % (s, t.show(flag)), dds.entry(s), make, dds.FIELDS,
                 ["duration"] + list(names) + ["pre_post_rotation", "name"], {"pre_post_rotation": FALSE, "name": NONE})

    for kind in ("ndarray", "list"):

        def ctor(sc, kind=kind):
            n = sc.int("n", "pos")
            kw = {"name": sc.str("label")}
            for nm, sign in (("durations", "pos"), ("rabi_rates", "nonneg"), ("azimuthal_angles", None), ("detunings", None)):
                kw[nm] = sc.array("c_" + nm, n, kind, "float", sign)[0]
            return None, kw

        pair(ck, "driven control from %s" % kind, "DrivenControl", ctor, conv.FIELDS,
             ["durations", "rabi_rates", "azimuthal_angles", "detunings", "name"],
             {"rabi_rates": NONE, "azimuthal_angles": NONE, "detunings": NONE, "name": NONE})

        def seq(sc, kind=kind):
            lay = conv.Layout(sc, "XPX", False, False, (1, 1, 1, 1), False)
            mk = lambda xs: sc.S.elems(xs, "float", kind)
            return None, {"duration": lay.tau, "offsets": mk(lay.offsets), "rabi_rotations": mk([r[0] for r in lay.rot]),
                          "azimuthal_angles": mk([r[1] for r in lay.rot]),
                          "detuning_rotations": mk([r[2] for r in lay.rot]), "name": sc.str("label")}

        pair(ck, "sequence from %s" % kind, "DynamicDecouplingSequence", seq, dds.FIELDS,
             ["duration", "offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations", "name"], {"name": NONE})

    def conversion(sc):
        lay = conv.Layout(sc, "XN", False, False, (1, 1, 1), True)
        out = lay.sequence()
        return out, {"dynamic_decoupling_sequence": out.value, "maximum_rabi_rate": lay.rate,
                     "maximum_detuning_rate": lay.drate, "minimum_segment_duration": lay.least, "name": sc.str("label")}

    pair(ck, "conversion", "convert_dds_to_driven_control", conversion, conv.FIELDS,
         ["dynamic_decoupling_sequence", "maximum_rabi_rate", "maximum_detuning_rate", "minimum_segment_duration", "name"],
         {"name": NONE})

    def no_minimum(o):
        a = ck.scenario(o.name)
        lay = conv.Layout(a, "XN", False, False, (1, 1, 1), False)
        want = mirror(a.attrs(conv.convert(a, lay, lay.sequence(), minimum_segment_duration=ZERO), conv.FIELDS))
        b = ck.scenario(o.name)
        lay = conv.Layout(b, "XN", False, False, (1, 1, 1), False)
        out = conv.convert(b, lay, lay.sequence())
        ck.equal(o, b, out, b.attrs(out, conv.FIELDS), want)

    ck.guard("conversion: minimum_segment_duration left out", DEFAULT, "convert_dds_to_driven_control", no_minimum)

    # exports
    def shown(kw):
        def fn(sc):
            c = control(sc, sc.int("n", "pos"), name=sc.str("label"))[0]
            args = kw if isinstance(kw, list) else []
            e = sc.method(c, "export", *args, **(kw if isinstance(kw, dict) else {}))
            return e, sc.value(e)

        return fn

    S = t.string
    full = {"coordinates": S("cylindrical"), "dimensionless_rabi_rate": TRUE}
    cases = [("nothing given", {}, full)]
    for c in ("cartesian", "cylindrical"):
        cases.append(("coordinates %s by position" % c, [S(c)], {"coordinates": S(c), "dimensionless_rabi_rate": TRUE}))
        for d in (TRUE, FALSE):
            cases.append(("coordinates %s, dimensionless %s by position" % (c, t.show(d)), [S(c), d],
                          {"coordinates": S(c), "dimensionless_rabi_rate": d}))
    cases.append(("coordinates left out", {"dimensionless_rabi_rate": FALSE}, dict(full, dimensionless_rabi_rate=FALSE)))
    for label, kw, ref in cases:

        def exported(o, kw=kw, ref=ref):
            a = ck.scenario(o.name)
            want = mirror(shown(ref)(a)[1])
            b = ck.scenario(o.name)
            out, got = shown(kw)(b)
            ck.equal(o, b, out, got, want)

        ck.guard("export of a control: %s" % label, DEFAULT if "left" in label or "nothing" in label else ORDER,
                 "DrivenControl.export", exported)

    def written(which, args, kw):
        def fn(sc):
            if which == "DrivenControl":
                c = control(sc, sc.int("n", "pos"), name=sc.str("label"))[0]
            else:
                lay = conv.Layout(sc, "XN", False, False, (1, 1, 1), False, rates=(t.mul(q(2), PI),) * 2)
                c = lay.sequence(sc.str("label"))
            e = sc.method(c, "export_to_file", *args, **kw)
            return e, sc.files(e)

        return fn

    base = [("filename", S("there")), ("file_format", S("Q-CTRL expanded")), ("file_type", S("CSV")),
            ("coordinates", S("cylindrical"))]
    rates = [("maximum_rabi_rate", t.mul(q(2), PI)), ("maximum_detuning_rate", t.mul(q(2), PI))]
    for which in ("DrivenControl", "DynamicDecouplingSequence"):
        every = base + (rates if which != "DrivenControl" else [])
        variants = []
        for ft in ("CSV", "JSON"):
            for co in ("cylindrical", "cartesian"):
                args = [dict(every, file_type=S(ft), coordinates=S(co))[k] for k, _ in every]
                variants.append(("%s %s by position" % (ft, co), args, {}, {"file_type": S(ft), "coordinates": S(co)}))
        for k, v in every[1:]:
            variants.append(("%s left out" % k, [], {a: b for a, b in every if a != k}, {}))
        variants.append(("only the file name", [S("there")], {}, {}))
        for label, args, kw, change in variants:

            def files(o, which=which, every=every, args=args, kw=kw, change=change):
                a = ck.scenario(o.name)
                want = written(which, [], dict(every, **change))(a)[1]
                b = ck.scenario(o.name)
                out, got = written(which, args, kw)(b)
                ck.equal(o, b, out, got, mirror(want))

            ck.guard("file export of a %s: %s" % (which, label), DEFAULT if "left" in label or "only" in label else ORDER,
                     which + ".export_to_file", files)
