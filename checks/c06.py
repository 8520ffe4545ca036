"""File export validates before it touches the file system."""

from pyvg import terms as t
from pyvg.check import Hole, touches
from pyvg.terms import FALSE, NONE, ONE, PI, TRUE, ZERO, q

from .common import control

MINIMUM = 76
RULE = "an unsupported format, type or coordinate choice is rejected before any file is opened"
GOOD = {"file_format": ("Q-CTRL expanded",), "file_type": ("CSV", "JSON"),
        "coordinates": ("cartesian", "cylindrical")}


def combos():
    for ff in GOOD["file_format"] + (None,):
        for ft in GOOD["file_type"] + (None,):
            for co in GOOD["coordinates"] + (None,):
                yield {"file_format": ff, "file_type": ft, "coordinates": co}


def rejected(c):
    return None in c.values() or NONE in c.values()


def receiver(ck, sc, which):
    if which == "DrivenControl":
        n = sc.int("n", "pos")
        return control(sc, n)[0]
    tau = sc.real("tau", "pos")
    off, _ = sc.S.elems([t.div(tau, q(2))], "float", "ndarray"), None
    mk = lambda v: sc.S.elems([v], "float", "ndarray")
    # long enough for one pi rotation at the default rate
    sc.assume(t.gt(tau, q(10)))
    return sc.call("DynamicDecouplingSequence", duration=tau, offsets=off, rabi_rotations=mk(PI),
                   azimuthal_angles=mk(ZERO), detuning_rotations=mk(ZERO))


def run(ck):
    for which in ("DrivenControl", "DynamicDecouplingSequence"):
        base = {k: v[-1] for k, v in GOOD.items()}
        for c in list(combos()) + [dict(base, **{k: NONE}) for k in GOOD]:

            def ob(o, which=which, c=c, only=False):
                sc = ck.scenario(o.name)
                kw = {}
                extra = []
                for k, v in c.items():
                    if v is not None:
                        kw[k] = v if v is NONE else t.string(v)
                    else:
                        s = sc.str("other_" + k, lambda p, e: p.rng.choice(
                            ["", "xml", "csv", "json", "polar", "Cartesian", "Q-CTRL", "CSV ", "Cylindrical", "C", "JSO", "ca",
                             "cartesian2", "Q-CTRL expanded 2", "CSVX"]))
                        extra += [t.ne(s, t.string(g)) for g in GOOD[k]]
                        kw[k] = s
                sc.assume(*extra)
                out = receiver(ck, sc, which)
                path = sc.str("path")
                e = sc.method(out, "export_to_file", path, **kw)
                e.facts = e.facts.add(*extra)
                if only:
                    ck.only(o, sc, e)
                    return
                spec = TRUE if rejected(c) else FALSE
                # effects of rejected calls
                dirty = [r for r in e.raises if any(touches(x) for x in r.effects)]
                if spec is TRUE and dirty:
                    o.where = dirty[0].site
                    bad = t.lor(*[r.cond for r in dirty])
                    ck.holds(o, sc, t.lnot(bad), e.facts)
                    if o.status == "refuted":
                        o.detail = "rejected after a file effect %s" % [x[0] for x in dirty[0].effects if touches(x)]
                        return
                ck.rejects(o, sc, e, spec)

            name = "%s.export_to_file %s" % (which, ", ".join("%s=%s" % (k, "None" if v is NONE else v or "other") for k, v in c.items()))
            ck.guard(name, RULE, which + ".export_to_file", ob)
            if rejected(c):
                ck.guard(name + ": error class", "the rejection is the package's argument error",
                         which + ".export_to_file", lambda o, ob=ob: ob(o, only=True))
