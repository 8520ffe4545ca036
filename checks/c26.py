"""Conversion of a decoupling sequence: every segment of the resulting control."""

from . import conv

MINIMUM = 1580
BUDGET = 600
LONG = (4, 5, 6, 8, 12, 20)
RULE = "each pulse and gap becomes one segment with the right duration, rate and angle, in order"


def cases(ck, kinds3="XN", most=3):
    for n in range(most + 1):
        for w, first, last in conv.layouts(n, conv.KINDS if n < 3 else kinds3):
            k = conv.gap_count(w, first, last)
            if n < 3:
                patterns = {(1,) * k, (0,) * k}
            else:
                patterns = {(1,) * k, tuple(i % 2 for i in range(k))}
            for gaps in sorted(patterns):
                for least in (False, True):
                    if not least and not any(gaps) and not w.strip("I"):
                        continue
                    if not least and any(w[j:j + 2] == "II" and not gaps[j + 1 - int(first)] for j in range(n - 1)):
                        continue  # the two operations would coincide
                    yield w, first, last, gaps, least
    for n in LONG:
        words = {"X" * n, ("XPNI" * n)[:n], ("NXXIPX" * n)[:n]}
        for w in sorted(words):
            for first, last in ((False, False), (True, True)):
                k = conv.gap_count(w, first, last)
                for least in (False, True):
                    yield w, first, last, (1,) * k, least


def title(w, first, last, gaps, least):
    return "operations [%s]%s%s, gaps %s, minimum segment %s" % (
        w, ", first at start" if first else "", ", last at end" if last else "", "".join(map(str, gaps)),
        "positive" if least else "zero")


def run(ck):
    for case in cases(ck, "XPNI", 4 if ck.thorough else 3):

        def ob(o, a=case):
            sc = ck.scenario(o.name)
            lay = conv.Layout(sc, *a)
            name = sc.str("label") if a[3][:1] == (1,) else None
            e = conv.convert(sc, lay, lay.sequence(), name)
            ck.equal(o, sc, e, sc.attrs(e, conv.FIELDS), lay.control(name))

        ck.guard(title(*case), RULE, "convert_dds_to_driven_control", ob)
    for n in range(4):
        for w, first, last in conv.layouts(n):
            if n == 3 and first != last:
                continue

            def whole(o, a=(w, first, last, (1,) * conv.gap_count(w, first, last), False)):
                sc = ck.scenario(o.name)
                lay = conv.Layout(sc, *a, whole=True)
                e = conv.convert(sc, lay, lay.sequence())
                ck.equal(o, sc, e, sc.attrs(e, conv.FIELDS), lay.control())

            ck.guard("operations [%s]%s%s, whole numbers" % (w, ", first at start" if first else "", ", last at end" if last else ""),
                     RULE, "convert_dds_to_driven_control", whole)
