"""Specification vocabulary shared by the checks."""

from fractions import Fraction as F

from pyvg import terms as t
from pyvg.check import A, D, E, L, R
from pyvg.terms import NONE, ONE, PI, T, TRUE, ZERO, q

DRIVEN = ("rabi_rates", "azimuthal_angles", "detunings")


def control(sc, n, given=DRIVEN, kind="ndarray", name=None, dtype="float", explicit=None):
    """A valid DrivenControl with symbolic contents; returns (outcome, element functions)."""
    kw, f = control_args(sc, n, given, kind, name, dtype)
    return sc.call("DrivenControl", **kw), f


def control_args(sc, n, given=DRIVEN, kind="ndarray", name=None, dtype="float", tag=""):
    kw, f = {}, {}
    for nm, sign in (("durations", "pos"), ("rabi_rates", "nonneg"), ("azimuthal_angles", None),
                     ("detunings", None)):
        if nm == "durations" or nm in given:
            kw[nm], f[nm] = sc.array("c_" + nm + dtype[0] + tag, n, kind, dtype, sign)
        else:
            f[nm] = lambda i: ZERO
    if name is not None:
        kw["name"] = name
    return kw, f


def sequence(sc, n, kind="ndarray", name=None, tau=None):
    """A valid DynamicDecouplingSequence with symbolic contents."""
    kw, f = sequence_args(sc, n, kind, name, tau)
    return sc.call("DynamicDecouplingSequence", **kw), f


def sequence_args(sc, n, kind="ndarray", name=None, tau=None, tag=""):
    tau = tau if tau is not None else sc.real("tau" + tag, "pos")
    kw, f = {"duration": tau}, {"duration": tau}

    def offs(p, e, k):
        T_ = e.ev(tau)
        xs = sorted(abs(p.real()) for _ in range(k))
        m = max(xs + [1])
        return [x / m * T_ for x in xs]

    for nm, sign, draw in (("offsets", "nonneg", offs), ("rabi_rotations", None, None),
                           ("azimuthal_angles", None, None), ("detuning_rotations", None, None)):
        kw[nm], f[nm] = sc.array("s_" + nm + tag, n, kind, "float", sign, draw)
    sc.assume(sc.forall(n, lambda i: t.le(f["offsets"](i), tau)))
    if name is not None:
        kw["name"] = name
    return kw, f


def lengths(sc, extra=(1, 2, 3)):
    """Symbolic length first, then small explicit ones."""
    return [("n", None)] + [("n=%d" % k, q(k)) for k in extra]


def number(x):
    return x if isinstance(x, T) else q(x)


def close(a, b, rtol=q("1/100000"), atol=q("1/100000000")):
    return t.isclose(a, b, rtol, atol)


def amax(sc, n, fn):
    i = t.fresh("z", "int")
    return t.amax(n, t.abstract(i, fn(i)))


def amin(sc, n, fn):
    i = t.fresh("z", "int")
    return t.amin(n, t.abstract(i, fn(i)))


def vsum(n, fn):
    i = t.fresh("z", "int")
    return t.vsum(n, t.abstract(i, fn(i)))


def near(n):
    """Draw of a length that usually equals n, otherwise is related to it or arbitrary."""
    def draw(p, e):
        k = int(e.ev(n))
        if p.rng.random() < 0.72:
            return F(k)
        return F(max(0, p.rng.choice([0, 1, k - 1, k + 1, 2 * k, 2, int(p.integer("nonneg"))])))

    return draw


def mostly(sign, zero=False):
    """Draw of reals which usually all have the sign; otherwise a few of them do not, anywhere."""
    def draw(p, e, k):
        xs = p.reals(None, k)
        if p.rng.random() < 0.15:
            return xs
        xs = [abs(x) if x or zero else F(1) for x in xs]
        if k and p.rng.random() < 0.4:
            for _ in range(p.rng.choice([1, 1, 2])):
                xs[p.rng.choice([0, k - 1, p.rng.randrange(k)])] = p.rng.choice([F(0), F(-1), -p.real("pos")])
        return xs

    return draw
