"""Contents of the package's argument errors."""

from pyvg import terms as t
from pyvg.check import AnalysisBroken, D, L, R, Snap, freeze
from pyvg.terms import FALSE, NONE, ONE, PI, TRUE, ZERO, T, q
from pyvg.values import DictC, ESeq

from . import conv, dds, driven
from .c13 import rotation
from .common import close, control
from .values import angle, small_angle

MINIMUM = 80
ERROR = "exceptions.ArgumentsValueError"
NAMED = "every raise reachable with only this argument at fault lists it, with its value, in the error's arguments"


def shown_as(sc, v, want):
    """Condition that the listed value v is the value passed; None if it cannot be told."""
    if isinstance(want, T):
        return t.eq(v, want) if isinstance(v, T) else None
    n, f = want
    if not isinstance(v, Snap) or v.kind not in ("arr", "seq"):
        return FALSE if isinstance(v, T) else None
    if v.kind == "arr":
        if v.data.ndim != 1:
            return None
        m, get = v.data.shape[0], lambda i: v.data.get((i,))
    else:
        m, get = v.data[0].n, v.data[0].get
    if not isinstance(get(ZERO), T):
        return None
    return t.land(t.eq(m, n), sc.forall(n, lambda i: t.eq(get(i), f(i))))


def fault(ck, o, sc, out, given, passed=()):
    """Raises of out whose arguments lack one of given (name -> value), or list another value for one of passed, are
    unreachable."""
    passed = dict(passed, **given)
    bad, sites = [], []
    for r in out.raises:
        if "ArgumentsValueError" not in r.mro:
            continue  # error classes are judged elsewhere
        sc.I.st = r.st
        x = freeze(sc.I, sc.I.get_attr(r.value, "arguments"))
        if not isinstance(x, Snap) or x.kind != "dict":
            raise Exception("arguments of the error are not a dictionary: %r" % (x,))
        ok = []
        for k, want in given.items():
            if k not in x.data:
                ok.append(FALSE)
                continue
            c = x.data[k][0]
            ok.append(c if isinstance(c, T) else TRUE if c else FALSE)
        for k, want in passed.items():
            if k in x.data and want is not None:
                c = shown_as(sc, x.data[k][1], want)
                if c is not None:
                    ok.append(c)
        bad.append(t.land(r.cond, t.lnot(t.land(*ok))))
        sites.append((r, list(x.data)))
    ck.holds(o, sc, t.lnot(t.lor(*bad)), out.facts, out.taint)
    if o.status == "refuted":
        o.detail = "the error at %s lists %s" % (sites[0][0].site, sites[0][1])


def run(ck):
    # the error class itself
    def family(o):
        names = [c.name for c in ck.session.export("exceptions", "ArgumentsValueError").mro()]
        ck.fact(o, "QctrlError" in names and ("Exception" in names or "BaseException" in names), "bases are %s" % names)

    ck.guard("error class", "the argument error is a package error and an Exception", ERROR, family)
    for na in (0, 1, 2, 3):
        for ne in (None, 0, 1, 2, 3):

            def content(o, na=na, ne=ne):
                sc = ck.scenario(o.name)
                d = sc.str("text")
                xs = [sc.real("x0"), sc.str("x1"), sc.real("x2")][:na]
                ys = [sc.str("y0"), sc.real("y1"), sc.str("y2")][:ne or 0]
                ad = dict(zip(("rate", "angle", "zeta"), xs))
                ed = dict(zip(("limit", "bound", "unit"), ys))
                mk = lambda m: sc.I.new(DictC({k: (TRUE, v) for k, v in m.items()}))
                kw = {"description": d, "arguments": mk(ad)}
                if ne is not None:
                    kw["extras"] = mk(ed)
                out = sc.call(ERROR, **kw)
                msg = [d]
                for k, v in list(ad.items()) + list(ed.items()):
                    msg += [t.string("\n%s=" % k), t.mk("repr", v) if v.args[1] == "str" else t.tostr(v)]
                msg = t.cat(*msg)
                spec = {"description": d, "arguments": D({k: v for k, v in ad.items()}),
                        "extras": NONE if ne is None else D({k: v for k, v in ed.items()}), "message": msg,
                        "args": L(ONE, lambda i: msg)}
                ck.equal(o, sc, out, sc.attrs(out, list(spec)), R(spec))

            ck.guard("error content, %d arguments, extras %s" % (na, ne), "the message is the description followed by one "
                     "line name=value per argument and extra; description, arguments and extras are kept", ERROR, content)

    # predefined controls
    for s in driven.ALL:
        tab = s not in driven.FREE
        faults = ["maximum_rabi_rate", "rabi_rotation"]
        for which in faults:

            def control_fault(o, s=s, which=which, tab=tab):
                sc = ck.scenario(o.name)
                if which == "maximum_rabi_rate":
                    th = driven.TARGETS["pi"] if tab else rotation(sc, s, None)
                    rate = sc.real("rate")
                    sc.assume(t.le(rate, ZERO))
                    given = {which: rate}
                else:
                    rate = sc.real("rate", "pos")
                    th = sc.real("theta", draw=angle)
                    if tab:
                        sc.assume(*[t.lnot(close(th, x)) for x in driven.TARGETS.values()])
                    elif s in driven.LIMITED:
                        th = sc.real("theta", draw=lambda p, e: p.rng.choice([0, 13, 20, 100]))
                        sc.assume(t.lor(t.eq(th, ZERO), t.gt(th, t.mul(q(4), PI))))
                        sc.assume(*driven.corpse_lemma(th))
                    else:
                        th = ZERO
                    given = {which: th}
                out = sc.call(driven.entry(s), rabi_rotation=th, maximum_rabi_rate=rate)
                fault(ck, o, sc, out, given, {"rabi_rotation": th, "maximum_rabi_rate": rate})

            ck.guard("%s: %s" % (s, which), NAMED, driven.entry(s), control_fault)
    e = "new_modulated_gaussian_control"
    for which in ("maximum_rabi_rate", "minimum_segment_duration", "duration", "rate too small"):

        def gaussian(o, which=which):
            sc = ck.scenario(o.name)
            rate, seg, T_ = sc.real("rate"), sc.real("segment"), sc.real("T", "pos")
            need = t.div(t.sqrt(t.mul(q(2), PI)), t.mul(q("1/10"), T_))
            good = {"maximum_rabi_rate": t.ge(rate, need), "minimum_segment_duration": t.gt(seg, ZERO),
                    "duration": t.gt(T_, seg)}
            key = which if which in good else "maximum_rabi_rate"
            for k, c in good.items():
                if k != key:
                    sc.assume(c)
            if which == "maximum_rabi_rate":
                sc.assume(t.le(rate, ZERO))
            elif which == "minimum_segment_duration":
                sc.assume(t.le(seg, ZERO))
            elif which == "duration":
                sc.assume(t.le(T_, seg))
            else:
                sc.assume(t.gt(rate, ZERO), t.lt(rate, need))
            out = sc.call(e, maximum_rabi_rate=rate, minimum_segment_duration=seg, duration=T_, modulation_frequency=sc.real("f"))
            fault(ck, o, sc, out, {key: {"maximum_rabi_rate": rate, "minimum_segment_duration": seg, "duration": T_}[key]})

        ck.guard("modulated gaussian: %s" % which, NAMED, e, gaussian)

    # predefined sequences
    par = {"ramsey": (), "spin_echo": (), "quadratic": ("inner_offset_count", "outer_offset_count"), "walsh": ("paley_order",),
           "x_concatenated": ("concatenation_order",), "xy_concatenated": ("concatenation_order",)}
    par.update({s: ("offset_count",) for s in dds.COUNTED})
    for s, names in par.items():
        for which in ("duration",) + names + (("above 2000",) if s == "walsh" else ()):

            def sequence_fault(o, s=s, names=names, which=which):
                sc = ck.scenario(o.name)
                tau = sc.real("tau", "pos")
                kw = {k: q(2) for k in names}
                if which == "duration":
                    tau = sc.real("tau")
                    sc.assume(t.le(tau, ZERO))
                    given = {"duration": tau}
                elif which == "above 2000":
                    kw["paley_order"] = sc.int("k", draw=lambda p, e: 2001 + p.rng.randint(0, 5000))
                    sc.assume(t.gt(kw["paley_order"], q(2000)))
                    given = dict(kw)
                else:
                    kw[which] = sc.int("k", draw=lambda p, e: -p.rng.randint(0, 5))
                    sc.assume(t.lt(kw[which], ONE))
                    given = {which: kw[which]}
                out = sc.call(dds.entry(s), duration=tau, **kw)
                fault(ck, o, sc, out, given)

            ck.guard("%s: %s" % (s, which), NAMED, dds.entry(s), sequence_fault)

    # the two classes and the conversion
    parts = ("durations", "rabi_rates", "azimuthal_angles", "detunings")
    for which in parts[:2] + tuple("length of " + a for a in parts[1:]):

        def ctor(o, which=which):
            sc = ck.scenario(o.name)
            n = sc.int("n", "pos")
            kw, passed = {}, {}
            for a, sign in zip(parts, ("pos", "nonneg", None, None)):
                k = n
                if which == "length of " + a:
                    k = sc.int("m", "pos")
                    sc.assume(t.ne(k, n))
                kw[a], f = sc.array("v_" + a, k, sign=None if which == a else sign)
                passed[a] = (k, f)
            if which == "durations":
                sc.assume(sc.exists(n, lambda i: t.le(passed[which][1](i), ZERO)))
            elif which == "rabi_rates":
                sc.assume(sc.exists(n, lambda i: t.lt(passed[which][1](i), ZERO)))
            given = {which.split()[-1]: passed[which.split()[-1]]}
            fault(ck, o, sc, sc.call("DrivenControl", **kw), given, passed)

        ck.guard("driven control: %s" % which, NAMED, "DrivenControl.__init__", ctor)
    for which in ("duration", "offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations"):

        def seq(o, which=which):
            sc = ck.scenario(o.name)
            n = sc.int("n", "pos")
            tau = sc.real("tau", None if which == "duration" else "pos")
            kw, given = {"duration": tau}, {which: None}
            passed = {"duration": tau}
            for a in ("offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations"):
                m = n
                if a == which and a != "offsets":
                    m = sc.int("m", "nonneg")
                    sc.assume(t.ne(m, n))
                kw[a], f = sc.array("v_" + a, m)
                passed[a] = (m, f)
                if a == "offsets":
                    if which == "offsets":
                        sc.assume(sc.exists(n, lambda i: t.lor(t.lt(f(i), ZERO), t.gt(f(i), tau))))
                    elif which != "duration":
                        sc.assume(sc.forall(n, lambda i: t.land(t.ge(f(i), ZERO), t.le(f(i), tau))))
            if which == "duration":
                sc.assume(t.le(tau, ZERO))
                given = {"duration": tau}
            given = {k: passed[k] for k in given}
            fault(ck, o, sc, sc.call("DynamicDecouplingSequence", **kw), given, passed)

        ck.guard("sequence: %s" % which, NAMED, "DynamicDecouplingSequence.__init__", seq)
    for which in ("maximum_rabi_rate", "maximum_detuning_rate", "minimum_segment_duration"):

        def conversion(o, which=which):
            sc = ck.scenario(o.name)
            lay = conv.Layout(sc, "X", False, False, (1, 1), True)
            v = sc.real("limit")
            sc.assume(t.lt(v, ZERO))
            kw = {"maximum_rabi_rate": lay.rate, "maximum_detuning_rate": lay.drate, "minimum_segment_duration": lay.least}
            kw[which] = v
            seq = lay.sequence()
            out = sc.then(seq, "convert_dds_to_driven_control", seq.value, **kw)
            fault(ck, o, sc, out, {which: v})

        ck.guard("conversion: %s" % which, NAMED, "convert_dds_to_driven_control", conversion)
    for which in ("file_format", "file_type", "coordinates"):

        def exported(o, which=which):
            sc = ck.scenario(o.name)
            s = sc.str("choice", lambda p, e: p.rng.choice(["", "xml", "csv", "polar", "Q-CTRL"]))
            for g in ("Q-CTRL expanded", "CSV", "JSON", "cartesian", "cylindrical"):
                sc.assume(t.ne(s, t.string(g)))
            c = control(sc, sc.int("n", "pos"))[0]
            out = sc.method(c, "export_to_file", t.string("f"), **{which: s})
            fault(ck, o, sc, out, {which: s})

        ck.guard("file export: %s" % which, NAMED, "DrivenControl.export_to_file", exported)

    def shown(o):
        sc = ck.scenario(o.name)
        s = sc.str("choice", lambda p, e: p.rng.choice(["", "xml", "csv", "polar", "Q-CTRL"]))
        for g in ("cartesian", "cylindrical"):
            sc.assume(t.ne(s, t.string(g)))
        c = control(sc, sc.int("n", "pos"))[0]
        fault(ck, o, sc, sc.method(c, "export", coordinates=s), {"coordinates": s})

    ck.guard("export: coordinates", NAMED, "DrivenControl.export", shown)
