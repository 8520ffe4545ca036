"""Argument validation of predefined decoupling sequences."""

from pyvg import terms as t
from pyvg.terms import ONE, ZERO, q

from . import dds

MINIMUM = 60
RULE = "raises exactly when the duration or a pulse number is outside the documented domain"

IN = {"walsh": {"paley_order": (1, 2, 7, 64, 2000)}, "x_concatenated": {"concatenation_order": (1, 2, 5)},
      "xy_concatenated": {"concatenation_order": (1, 2, 3)}}


def run(ck):
    flags = (t.FALSE, t.TRUE)
    for s in ("ramsey", "spin_echo") + dds.COUNTED + ("quadratic",):
        for flag in flags:
            for part in ("domain", "error class"):
                def ob(o, s=s, flag=flag, part=part):
                    sc = ck.scenario(o.name)
                    tau = sc.real("tau")
                    kw, bad = {}, [t.le(tau, ZERO)]
                    if s in dds.COUNTED:
                        kw["offset_count"] = sc.int("m")
                    elif s == "quadratic":
                        if flag is t.TRUE:
                            kw = {"inner_offset_count": q(2), "outer_offset_count": q(3)}
                        else:
                            kw = {"inner_offset_count": sc.int("mi"), "outer_offset_count": sc.int("mo")}
                    bad += [t.lt(v, ONE) for v in kw.values()]
                    out = sc.call(dds.entry(s), duration=tau, pre_post_rotation=flag, **kw)
                    if part == "domain":
                        ck.rejects(o, sc, out, t.lor(*bad))
                    else:
                        ck.only(o, sc, out)

                ck.guard("%s, pre/post %s: %s" % (s, t.show(flag), part), RULE, dds.entry(s), ob)
    # numbers of pulses and orders below one, including fractional ones
    low = {s: ("offset_count",) for s in dds.COUNTED}
    low.update({"quadratic": ("inner_offset_count", "outer_offset_count"), "walsh": ("paley_order",),
                "x_concatenated": ("concatenation_order",), "xy_concatenated": ("concatenation_order",)})
    for s, names in low.items():
        for nm in names:
            cases = [("below one", lambda v: t.lt(v, ONE))]
            if s == "walsh":
                cases.append(("above 2000", lambda v: t.gt(v, q(2000))))
            for label, cond in cases:
                for part in ("raises", "error class"):
                    def ob(o, s=s, nm=nm, names=names, cond=cond, part=part, label=label):
                        sc = ck.scenario(o.name)
                        tau = sc.real("tau")
                        v = sc.real("count", draw=lambda p, e: p.real() * (1 if label == "below one" else 5000))
                        sc.assume(cond(v))
                        kw = {k: v if k == nm else q(2) for k in names}
                        out = sc.call(dds.entry(s), duration=tau, **kw)
                        if part == "raises":
                            ck.rejects(o, sc, out, t.TRUE)
                        else:
                            ck.only(o, sc, out)

                    ck.guard("%s, %s %s: %s" % (s, nm, label, part), RULE, dds.entry(s), ob)
    for s, d in IN.items():
        for nm, ks in d.items():
            for k in ks:
                for flag in flags:
                    if k > 100 and flag is t.TRUE:
                        continue
                    for part in ("domain", "error class"):
                        def ob(o, s=s, nm=nm, k=k, flag=flag, part=part):
                            sc = ck.scenario(o.name)
                            tau = sc.real("tau")
                            out = sc.call(dds.entry(s), duration=tau, pre_post_rotation=flag, **{nm: q(k)})
                            if part == "domain":
                                ck.rejects(o, sc, out, t.le(tau, ZERO))
                            else:
                                ck.only(o, sc, out)

                        ck.guard("%s, %s = %d, pre/post %s: %s" % (s, nm, k, t.show(flag), part), RULE, dds.entry(s),
                                 ob)
