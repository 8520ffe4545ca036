"""Results do not depend on earlier calls."""

import copy

from pyvg import terms as t
from pyvg.check import A, D, L, R, Snap, T, as_spec, freeze
from pyvg.terms import NONE, PI, TRUE, ZERO, q

from pyvg.values import Phi

from . import conv, dds, driven
from .c12 import WHERE, scene
from .c13 import rotation
from .c29 import CONTROL, SEQUENCE, observe
from .common import control, control_args, sequence_args
from .values import angle, small_angle

MINIMUM = 460
RULE = "the result equals that of the same call on a fresh interpreter"


def mirror(x):
    """Observed data as a specification."""
    if isinstance(x, T):
        return x
    if isinstance(x, Phi):
        return Snap("phi", (x.c, mirror(x.a), mirror(x.b)))
    if isinstance(x, Snap):
        if x.kind == "phi":
            c, a, b = x.data
            return Snap("phi", (c, mirror(a), mirror(b)))
        if x.kind == "arr" and x.data.ndim == 1:
            return as_spec(x)
        if x.kind == "rec":
            return R({k: mirror(v) for k, v in x.data.items()})
        if x.kind == "seq":
            return L(x.data[0].n, lambda i: mirror(x.data[0].get(i)))
        if x.kind == "dict":
            if all(c is TRUE or c is True for c, _ in x.data.values()):
                return D({k: mirror(v) for k, (c, v) in x.data.items()})
    raise Exception("no specification for %r" % (x,))


def _at(obj, e):
    """The object of one outcome in the state of a later one."""
    o = copy.copy(e)
    o.value, o.base, o.raises = obj.value, e, []
    return o


def run(ck):
    # two calls of the same function with different arguments
    for s in driven.ALL:
        targets = driven.TARGETS if s in driven.TABLED or s == "wamf1" else [None]
        for target in targets:

            def ob(o, s=s, target=target):
                def args(sc, k):
                    if target is None:
                        th = sc.real("theta%d" % k, "pos", draw=small_angle(0, 4))
                        if s in driven.LIMITED:
                            sc.assume(t.le(th, t.mul(q(4), PI)))
                        if "corpse" in s:
                            sc.assume(*driven.corpse_lemma(th))
                    else:
                        th = driven.TARGETS[target] if k == 2 else [
                            v for n, v in driven.TARGETS.items() if n != target][0]
                    return {"rabi_rotation": th, "maximum_rabi_rate": sc.real("rate%d" % k, "pos"),
                            "azimuthal_angle": sc.real("phi%d" % k, draw=angle), "name": sc.str("label%d" % k)}

                fresh = ck.scenario(o.name)
                want = mirror(fresh.attrs(fresh.call(driven.entry(s), **args(fresh, 2)), driven.FIELDS))
                sc = ck.scenario(o.name)
                a1, a2 = args(sc, 1), args(sc, 2)
                a = sc.call(driven.entry(s), **a1)
                b = sc.then(a, driven.entry(s), **a2)
                ck.equal(o, sc, b, sc.attrs(b, driven.FIELDS), want)

            ck.guard("%s%s after another" % (s, "" if target is None else ", rotation " + target), RULE,
                     driven.entry(s), ob)

    # the modulated Gaussian control, with the same or another number of segments
    for k1, k2 in ((None, None), (2, 3), (3, 3), (4, 2)):
        for f1, f2 in ((0, 0), (0, 1), (1, 0), (1, 1)):

            def gaussian(o, k1=k1, k2=k2, f1=f1, f2=f2):
                def args(sc, k, count, f):
                    T_, rate, least, n = scene(sc, count, str(k))
                    f = sc.real("f%d" % k, "nonzero") if f else ZERO
                    return {"maximum_rabi_rate": rate, "minimum_segment_duration": least, "duration": T_,
                            "modulation_frequency": f}

                fresh = ck.scenario(o.name)
                want = mirror(fresh.attrs(fresh.call(WHERE, **args(fresh, 2, k2, f2)), driven.FIELDS))
                sc = ck.scenario(o.name)
                a1, a2 = args(sc, 1, k1, f1), args(sc, 2, k2, f2)
                a = sc.call(WHERE, **a1)
                b = sc.then(a, WHERE, **a2)
                ck.equal(o, sc, b, sc.attrs(b, driven.FIELDS), want)

            ck.guard("modulated gaussian, %s segments %s after %s segments %s" % (
                k2 or "any", "modulated" if f2 else "plain", k1 or "any", "modulated" if f1 else "plain"), RULE, WHERE, gaussian)

    # one predefined control after another kind of control
    def driven_args(sc, s, k):
        if s in driven.TABLED or s == "wamf1":
            th = driven.TARGETS["pi"]
        else:
            th = sc.real("theta%d" % k, "pos", draw=small_angle(0, 4))
            if s in driven.LIMITED:
                sc.assume(t.le(th, t.mul(q(4), PI)))
            if "corpse" in s:
                sc.assume(*driven.corpse_lemma(th))
        return {"rabi_rotation": th, "maximum_rabi_rate": sc.real("rate%d" % k, "pos"),
                "azimuthal_angle": sc.real("phi%d" % k, draw=angle)}

    for s1 in driven.ALL:
        for s2 in driven.ALL:
            if s1 == s2:
                continue

            def other(o, s1=s1, s2=s2):
                fresh = ck.scenario(o.name)
                want = mirror(fresh.attrs(fresh.call(driven.entry(s2), **driven_args(fresh, s2, 2)), driven.FIELDS))
                sc = ck.scenario(o.name)
                a1, a2 = driven_args(sc, s1, 1), driven_args(sc, s2, 2)
                a = sc.call(driven.entry(s1), **a1)
                b = sc.then(a, driven.entry(s2), **a2)
                ck.equal(o, sc, b, sc.attrs(b, driven.FIELDS), want)

            ck.guard("%s after %s" % (s2, s1), RULE, driven.entry(s2), other)

    # one predefined sequence after another kind of sequence
    few = {"ramsey": {}, "spin_echo": {}, "quadratic": {"inner_offset_count": q(3), "outer_offset_count": q(2)},
           "walsh": {"paley_order": q(3)}, "x_concatenated": {"concatenation_order": q(3)},
           "xy_concatenated": {"concatenation_order": q(2)}}
    few.update({s: {"offset_count": q(3)} for s in dds.COUNTED})
    for s1 in few:
        for s2 in few:
            if s1 == s2:
                continue
            for pre in (False, True):

                def mixed(o, s1=s1, s2=s2, pre=pre):
                    def args(sc, s, k):
                        return dict(few[s], duration=sc.real("tau%d" % k, "pos"), pre_post_rotation=TRUE if pre else t.FALSE)

                    fresh = ck.scenario(o.name)
                    want = mirror(fresh.attrs(fresh.call(dds.entry(s2), **args(fresh, s2, 2)), dds.FIELDS))
                    sc = ck.scenario(o.name)
                    a1, a2 = args(sc, s1, 1), args(sc, s2, 2)
                    a = sc.call(dds.entry(s1), **a1)
                    b = sc.then(a, dds.entry(s2), **a2)
                    ck.equal(o, sc, b, sc.attrs(b, dds.FIELDS), want)

                ck.guard("%s after %s%s" % (s2, s1, ", with pre/post" if pre else ""), RULE, dds.entry(s2), mixed)

    # a document of one control after documents of another
    views = [("export", {"coordinates": t.string("cartesian")}), ("export", {"coordinates": t.string("cylindrical")}),
             ("export_to_file", {"file_type": t.string("CSV")}), ("export_to_file", {"file_type": t.string("JSON")}),
             ("__str__", {}), ("__repr__", {})]
    tag = lambda v: " ".join([v[0].strip("_")] + [x.args[0] for x in v[1].values()])
    for kind in ("control", "sequence"):
        own = views if kind == "control" else [("export", {})] + views[4:]
        for v1 in own:
            for v2 in own:

                def document(o, v1=v1, v2=v2, kind=kind):
                    build = control_args if kind == "control" else sequence_args
                    where = "DrivenControl" if kind == "control" else "DynamicDecouplingSequence"

                    def args(sc, k):
                        return build(sc, sc.int("n%d" % k, "pos"), name=sc.str("label%d" % k), tag=str(k))[0]

                    def see(sc, e):
                        return sc.files(e) if v2[0] == "export_to_file" else sc.value(e)

                    fresh = ck.scenario(o.name)
                    want = mirror(see(fresh, observe(fresh, fresh.call(where, **args(fresh, 2)), *v2)))
                    sc = ck.scenario(o.name)
                    a1, a2 = args(sc, 1), args(sc, 2)
                    a = sc.call(where, **a1)
                    b = sc.call(where, **a2)
                    b.base = a
                    e = observe(sc, _at(a, b), *v1)
                    f = observe(sc, _at(b, e), *v2)
                    ck.equal(o, sc, f, see(sc, f), want)

                ck.guard("%s: %s of one after %s of another" % (kind, tag(v2), tag(v1)), RULE,
                         "DrivenControl" if kind == "control" else "DynamicDecouplingSequence", document)

    cases = [("ramsey", {}, {}), ("spin_echo", {}, {})]
    for s in dds.COUNTED:
        cases += [(s, {"offset_count": q(a)}, {"offset_count": q(b)}) for a, b in ((3, 2), (2, 2), (1, 4))]
        cases.append((s, None, None))
    two = lambda a, b: {"inner_offset_count": q(a), "outer_offset_count": q(b)}
    cases += [("quadratic", two(2, 1), two(1, 2)), ("quadratic", two(1, 1), two(2, 2))]
    cases += [("walsh", {"paley_order": q(a)}, {"paley_order": q(b)}) for a, b in ((5, 3), (3, 6), (6, 6))]
    for s in ("x_concatenated", "xy_concatenated"):
        cases += [(s, {"concatenation_order": q(a)}, {"concatenation_order": q(b)}) for a, b in ((2, 1), (1, 2), (2, 2))]
    for s, k1, k2 in cases:
        for pre1, pre2 in ((False, False), (True, False), (False, True), (True, True)):

            def seq(o, s=s, k1=k1, k2=k2, pre1=pre1, pre2=pre2):
                def args(sc, k, kw, pre):
                    kw = dict(kw if kw is not None else {"offset_count": sc.int("m%d" % k, "pos")})
                    kw["duration"], kw["name"] = sc.real("tau%d" % k, "pos"), sc.str("label%d" % k)
                    if pre:
                        kw["pre_post_rotation"] = t.TRUE
                    return kw

                fresh = ck.scenario(o.name)
                want = mirror(fresh.attrs(fresh.call(dds.entry(s), **args(fresh, 2, k2, pre2)), dds.FIELDS))
                sc = ck.scenario(o.name)
                a1, a2 = args(sc, 1, k1, pre1), args(sc, 2, k2, pre2)
                a = sc.call(dds.entry(s), **a1)
                b = sc.then(a, dds.entry(s), **a2)
                ck.equal(o, sc, b, sc.attrs(b, dds.FIELDS), want)

            tag = "/".join("".join(str(int(v.args[0])) for v in k.values()) if k is not None else "m" for k in (k1, k2))
            ck.guard("%s %s after another%s%s" % (s, tag, ", earlier with pre/post" if pre1 else "",
                                                  ", with pre/post" if pre2 else ""), RULE, dds.entry(s), seq)

    # conversion after another conversion
    for w1, w2 in (("X", "N"), ("XX", "X"), ("N", "XI"), ("", "X"), ("X", "")):

        def conversion(o, w1=w1, w2=w2):
            fresh = ck.scenario(o.name)
            lay = conv.Layout(fresh, w2, False, False, (1,) * (len(w2) + 1), True)
            want = mirror(fresh.attrs(conv.convert(fresh, lay, lay.sequence()), conv.FIELDS))
            sc = ck.scenario(o.name)
            # the same symbols play both roles in turn; rates differ
            rates = (sc.real("rate0", "pos"), sc.real("drate0", "pos"))
            lay = conv.Layout(sc, w2, False, False, (1,) * (len(w2) + 1), True)
            other = conv.Layout(sc, w1, False, False, (1,) * (len(w1) + 1), False, rates=rates)
            a = conv.convert(sc, other, other.sequence())
            out = lay.sequence()
            out.base = a
            b = conv.convert(sc, lay, out)
            ck.equal(o, sc, b, sc.attrs(b, conv.FIELDS), want)

        ck.guard("conversion of [%s] after [%s]" % (w2, w1), RULE, "convert_dds_to_driven_control", conversion)

    # repeated and interleaved reads of one control
    reads = ["number_of_segments", "maximum_rabi_rate", "maximum_detuning", "amplitude_x", "amplitude_y", "angles", "times",
             "maximum_duration", "minimum_duration", "duration"]
    for label, k in (("n", None), ("n=2", q(2))):
        for first in ["construction"] + ["export cartesian", "export cylindrical", "CSV", "JSON", "__str__", "__repr__",
                                         "directions"]:

            def again(o, k=k, first=first):
                o.total = False

                def build(sc):
                    n = k if k is not None else sc.int("n", "pos")
                    return control(sc, n, name=sc.str("label"))[0]

                fresh = ck.scenario(o.name)
                out = build(fresh)
                want = {}
                for r in reads:
                    want[r] = mirror(fresh.attr(out, r))
                sc = ck.scenario(o.name)
                out = build(sc)
                if first == "construction":
                    e = control(sc, sc.int("other", "pos"), name=sc.str("label2"))[0]
                    e.base = out
                elif first.startswith("export"):
                    e = observe(sc, out, "export", {"coordinates": t.string(first.split()[1])})
                elif first in ("CSV", "JSON"):
                    e = observe(sc, out, "export_to_file", {"file_type": t.string(first)})
                elif first == "directions":
                    e = observe(sc, out, first, None)
                else:
                    e = observe(sc, out, first, [])
                got = {}
                for r in reads + reads[::-1]:
                    e.enter()
                    x = sc.S.call(lambda: sc.I.get_attr(out.value, r))
                    x.base, x.scenario = e, sc
                    got[r] = freeze(sc.I, x.value) if x.st is not None else Snap("opq", "raises")
                    if x.st is not None:
                        e = x
                ck.equal(o, sc, e, Snap("rec", got), R(want), may_raise=True)

            ck.guard("accessors after %s, %s" % (first, label), RULE, "DrivenControl", again)
