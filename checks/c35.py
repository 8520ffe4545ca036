"""Shared helpers: representation from attribute names, and the argument check."""

import copy

from pyvg import terms as t
from pyvg.check import D, R
from pyvg.npmodel import repr_value
from pyvg.terms import FALSE, NONE, ONE, TRUE, ZERO, q
from pyvg.values import DictC, ESeq, Tup

from .common import control, sequence

MINIMUM = 83
SHOW, CHECK = "utils.create_repr_from_attributes", "utils.check_arguments"
NAMES = {"DrivenControl": ["durations", "rabi_rates", "azimuthal_angles", "detunings", "name"],
         "DynamicDecouplingSequence": ["duration", "offsets", "rabi_rotations", "detuning_rotations", "name"]}


def make(sc, which):
    name = sc.str("label")
    if which == "DrivenControl":
        return control(sc, sc.int("n", "pos"), name=name)[0]
    return sequence(sc, sc.int("n", "nonneg"), name=name)[0]


def picks(names):
    a, b, c, d, e = names
    return [[a], [e], [b, a], [d, c, b], [a, a], [e, d, c, b, a], [a, b, c, d, e]]


def run(ck):
    for which, names in NAMES.items():
        for kind in ("list", "tuple"):
            for pick in picks(names):

                def ob(o, which=which, pick=pick, kind=kind):
                    sc = ck.scenario(o.name)
                    items = [t.string(x) for x in pick]
                    attrs = Tup(items) if kind == "tuple" else sc.I.mk_list(ESeq(items))
                    base = make(sc, which)
                    e = sc.then(base, SHOW, class_instance=base.value, attributes=attrs)
                    parts = [t.string(which + "(")]
                    e.enter()
                    for i, x in enumerate(pick):
                        v = repr_value(sc.I, sc.I.get_attr(base.value, x))
                        parts += [t.string("%s%s=" % ("," if i else "", x)), v]
                    ck.equal(o, sc, e, sc.value(e), t.cat(*parts, t.string(")")))

                ck.guard("%s, %s of %s" % (which, kind, "/".join(pick)),
                         "the representation lists the named attributes with their values, in the order given", SHOW, ob)

        def empty(o, which=which):
            sc = ck.scenario(o.name)
            none = sc.I.mk_list(ESeq([]))
            base = make(sc, which)
            e = sc.then(base, SHOW, class_instance=base.value, attributes=none)
            ck.equal(o, sc, e, sc.value(e), t.string("No attributes provided for object of class " + which))

        ck.guard("%s, no attributes" % which, "an empty list of names gives a message naming the class", SHOW, empty)
        for label in ("attributes missing", "instance missing", "number first", "number last", "none last"):

            def wrong(o, which=which, label=label, only=False):
                sc = ck.scenario(o.name)
                items = [t.string(x) for x in NAMES[which][:2]]
                if label.startswith("number"):
                    items.insert(0 if label.endswith("first") else 2, sc.real("x"))
                if label == "none last":
                    items.append(NONE)
                attrs = sc.I.mk_list(ESeq(items))
                base = make(sc, which)
                kw = {"class_instance": base.value, "attributes": attrs}
                if label == "attributes missing":
                    del kw["attributes"]
                if label == "instance missing":
                    del kw["class_instance"]
                e = sc.then(base, SHOW, **kw)
                ck.only(o, sc, e) if only else ck.rejects(o, sc, e, TRUE)

            ck.guard("%s, %s" % (which, label), "missing or non-text input raises", SHOW, wrong)
            ck.guard("%s, %s: error class" % (which, label), "the error is the package's argument error", SHOW,
                     lambda o, wrong=wrong: wrong(o, only=True))

    for na in (0, 1, 2):
        for ne in (None, 0, 2):

            def check(o, na=na, ne=ne, only=False):
                sc = ck.scenario(o.name)
                c, d = sc.bool("condition"), sc.str("text")
                ad = dict(zip(("rate", "angle"), [sc.real("x0"), sc.str("x1")][:na]))
                ed = dict(zip(("limit", "bound"), [sc.str("y0"), sc.real("y1")][:ne or 0]))
                mk = lambda m: sc.I.new(DictC({k: (TRUE, v) for k, v in m.items()}))
                kw = {"condition": c, "description": d, "arguments": mk(ad)}
                if ne is not None:
                    kw["extras"] = mk(ed)
                e = sc.call(CHECK, **kw)
                if only:
                    ck.only(o, sc, e)
                else:
                    ck.rejects(o, sc, e, t.lnot(c))

            label = "argument check, %d arguments, extras %s" % (na, ne)
            ck.guard(label, "raises exactly when the condition is false", CHECK, check)
            ck.guard(label + ": error class", "the error is the package's argument error", CHECK,
                     lambda o, check=check: check(o, only=True))

            def content(o, na=na, ne=ne):
                sc = ck.scenario(o.name)
                d = sc.str("text")
                ad = dict(zip(("rate", "angle"), [sc.real("x0"), sc.str("x1")][:na]))
                ed = dict(zip(("limit", "bound"), [sc.str("y0"), sc.real("y1")][:ne or 0]))
                mk = lambda m: sc.I.new(DictC({k: (TRUE, v) for k, v in m.items()}))
                kw = {"condition": FALSE, "description": d, "arguments": mk(ad)}
                if ne is not None:
                    kw["extras"] = mk(ed)
                out = sc.call(CHECK, **kw)
                rs = [r for r in out.raises if "ArgumentsValueError" in r.mro]
                if len(rs) != 1 or rs[0].cond is not TRUE:
                    raise Exception("not a single raise")
                err = copy.copy(out)
                err.st, err.value, err.raises = rs[0].st, rs[0].value, []
                spec = {"description": d, "arguments": D(ad), "extras": NONE if ne is None else D(ed)}
                ck.equal(o, sc, err, sc.attrs(err, list(spec)), R(spec))

            ck.guard(label + ": content", "the error keeps the description, the arguments and the extras", CHECK, content)
    for label in ("zero", "one", "empty list", "list", "none", "text"):

        def truth(o, label=label):
            sc = ck.scenario(o.name)
            sc.real("unused")
            I = sc.I
            v = {"zero": lambda: ZERO, "one": lambda: ONE, "none": lambda: NONE, "text": lambda: t.string("x"),
                 "empty list": lambda: I.mk_list(ESeq([])), "list": lambda: I.mk_list(ESeq([ZERO]))}[label]()
            e = sc.call(CHECK, v, t.string("text"), I.new(DictC({})))
            ck.rejects(o, sc, e, TRUE if label in ("zero", "empty list", "none") else FALSE)

        ck.guard("argument check of %s" % label, "the condition is taken by its truth value", CHECK, truth)
