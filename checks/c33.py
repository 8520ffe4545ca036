"""Net rotation of the predefined controls."""

import mpmath

from pyvg import sample
from pyvg import terms as t
from pyvg.check import Hole, PROVED, R, as_spec
from pyvg.evalt import Undefined, Unknown
from pyvg.terms import PI, ZERO, q

from . import driven, spin
from .c12 import modulated, scene
from .c13 import rotation
from .values import angle

MINIMUM = 42
RULE = "the segments' rotations compose to the requested rotation about the requested axis (up to global phase)"
# published angles of the tabled schemes are rounded; distance of the net rotation from the target
TOLERANCE = {"scrofulous": mpmath.mpf("2e-3"), "corpse_in_scrofulous": mpmath.mpf("2e-3")}


def numeric(pairs):
    net = (mpmath.mpf(1), mpmath.mpf(0), mpmath.mpf(0), mpmath.mpf(0))
    for a, f in pairs:
        c, s = mpmath.cos(a / 2), mpmath.sin(a / 2)
        net = spin.product((c, s * mpmath.cos(f), s * mpmath.sin(f), mpmath.mpf(0)), net)
    return net


def distance(net, want):
    """Largest component difference up to sign."""
    return min(max(abs(x - g * y) for x, y in zip(net, want)) for g in (1, -1))


def compose(ck, o, sc, out, theta, phi, tolerance=None):
    f = sc.attrs(out, ["durations", "rabi_rates", "azimuthal_angles", "detunings"]).data
    f = {k: as_spec(v) for k, v in f.items()}
    if f["durations"].n.op != "q":
        raise Hole("number of segments is not constant")
    n = int(f["durations"].n.args[0])
    segs = [(t.mul(f["durations"].fn(q(i)), f["rabi_rates"].fn(q(i))), f["azimuthal_angles"].fn(q(i))) for i in range(n)]
    flat = all(f["detunings"].fn(q(i)) is ZERO for i in range(n))
    if flat and tolerance is None:
        try:
            if spin.exact(segs, theta, phi):
                o.status = PROVED if not out.taint else o.status
                return
        except spin.Gap as e:
            o.detail = str(e)

    def refute():
        if not flat:
            return None
        limit = tolerance or mpmath.mpf("1e-20")
        worst = None
        for env in sample.valuations(sc.scn, list(out.facts.items), list(out.facts.items), ck.seed, seconds=ck.patience(sc),
                                     limit=60):
            try:
                ps = [(mpmath.mpf(num(env.ev(a))), mpmath.mpf(num(env.ev(b)))) for a, b in segs]
                th, ph = num(env.ev(theta)), num(env.ev(phi))
            except (Unknown, Undefined, ZeroDivisionError):
                continue
            o.tried += 1
            d = distance(numeric(ps), numeric([(th, ph)]))
            if d > limit:
                return {"path": o.name, "code": "net rotation off by %s" % mpmath.nstr(d, 5), "expected": "at most %s" %
                        mpmath.nstr(limit, 3), "valuation": env.describe()}
            worst = d if worst is None else max(d, worst)
        return None

    proved = False
    if tolerance is not None and flat:
        # constants: every azimuth is the requested one plus a constant
        rel = [(a, t.sub(b, phi)) for a, b in segs]
        if not any(syms(x) for p in rel for x in p):
            e = next(iter(sample.valuations(sc.scn, list(out.facts.items), [], ck.seed, seconds=4)))
            ps = [(mpmath.mpf(num(e.ev(a))), mpmath.mpf(num(e.ev(b)))) for a, b in rel]
            proved = distance(numeric(ps), numeric([(num(e.ev(theta)), mpmath.mpf(0))])) <= tolerance
    ck.settle(o, proved, refute, out.taint)


def num(v):
    from fractions import Fraction

    return mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else v


def syms(x, seen=None):
    """Symbols of a term."""
    seen = set() if seen is None else seen
    todo, out = [x], []
    while todo:
        y = todo.pop()
        if isinstance(y, t.T):
            if y in seen:
                continue
            seen.add(y)
            if y.op in ("sym", "elem", "opaque"):
                out.append(y)
            todo.extend(y.args)
        elif isinstance(y, tuple):
            todo.extend(y)
    return out


def run(ck):
    for s in driven.ALL:
        for target in (driven.TARGETS if s in driven.TABLED or s == "wamf1" else [None]):
            for default in (False, True):

                def ob(o, s=s, target=target, default=default):
                    sc = ck.scenario(o.name)
                    theta, rate = rotation(sc, s, target), sc.real("rate", "pos")
                    kw, phi = {}, ZERO
                    if not default:
                        phi = kw["azimuthal_angle"] = sc.real("phi", draw=angle)
                    out = sc.call(driven.entry(s), rabi_rotation=theta, maximum_rabi_rate=rate, **kw)
                    compose(ck, o, sc, out, theta, phi, TOLERANCE.get(s))

                ck.guard("%s%s%s" % (s, "" if target is None else ", rotation " + target, ", default azimuth" if default else ""),
                         RULE, driven.entry(s), ob)
    e = "new_modulated_gaussian_control"
    two_pi = t.mul(q(2), PI)
    for count in (2, 3, 4, 5, 6, 7):

        def plain(o, count=count):
            sc = ck.scenario(o.name)
            T_, rate = sc.real("T", "pos"), sc.real("rate", "pos", lambda p, e: 26 * (1 + abs(p.real())) / e.ev(T_))
            sc.assume(t.ge(rate, t.div(t.sqrt(two_pi), t.mul(q("1/10"), T_))))
            least = t.div(T_, q(count))
            out = sc.call(e, maximum_rabi_rate=rate, minimum_segment_duration=least, duration=T_, modulation_frequency=ZERO)
            f = {k: as_spec(v) for k, v in sc.attrs(out, ["durations", "rabi_rates", "azimuthal_angles"]).data.items()}
            total = t.add(*[t.mul(f["durations"].fn(q(i)), f["rabi_rates"].fn(q(i)), t.cos(f["azimuthal_angles"].fn(q(i))))
                            for i in range(count)])
            turns = t.cancel_inv(t.div(total, two_pi))
            ck.holds(o, sc, t.land(t.eq(turns, t.floor(turns)), t.ge(turns, t.ONE)), out.facts, out.taint)

        ck.guard("plain gaussian, %d segments" % count, "without modulation the control performs a whole, non-zero number of turns",
                 e, plain)

        def odd(o, count=count):
            sc = ck.scenario(o.name)
            T_, rate, least, n = scene(sc, count)
            f = sc.real("f")
            sc.assume(t.ne(f, ZERO))
            m = modulated(T_, n, f)
            sc.assume(t.gt(t.vmax(*[m(q(i)) for i in range(count)]), q("1/1000000")))
            out = sc.call(e, maximum_rabi_rate=rate, minimum_segment_duration=least, duration=T_, modulation_frequency=f)
            f = {k: as_spec(v) for k, v in sc.attrs(out, ["durations", "rabi_rates", "azimuthal_angles"]).data.items()}
            total = t.add(*[t.mul(f["durations"].fn(q(i)), f["rabi_rates"].fn(q(i)), t.cos(f["azimuthal_angles"].fn(q(i))))
                            for i in range(count)])
            ck.equal(o, sc, out, total, ZERO)

        ck.guard("modulated gaussian, %d segments" % count, "with modulation the rotations of the control cancel", e, odd)
