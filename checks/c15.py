"""Acceptance and contents of decoupling sequences."""

from fractions import Fraction as F

from pyvg import terms as t
from pyvg.check import A, R
from pyvg.terms import NONE, ZERO, q

from .common import near, sequence

MINIMUM = 24
ARRAYS = ("offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations")
WHERE = "DynamicDecouplingSequence.__init__"


def run(ck):
    for kind in ("ndarray", "list"):
        for part in ("acceptance", "error class"):

            def ob(o, kind=kind, part=part):
                sc = ck.scenario(o.name)
                tau = sc.real("tau")
                n = sc.int("n", "nonneg")
                kw, bad = {"duration": tau}, [t.le(tau, ZERO)]
                for a in ARRAYS:
                    m = n if a == "offsets" else sc.int("m_" + a, "nonneg", draw=near(n))

                    def draw(p, e, k, tau=tau):
                        T = abs(e.ev(tau))
                        xs = [T * p.rng.randint(0, 8) / 8 for _ in range(k)]
                        if p.rng.random() < 0.4:
                            xs.sort()
                        if k and p.rng.random() < 0.5:
                            for _ in range(p.rng.choice([1, 1, 2, k])):
                                xs[p.rng.choice([0, k - 1, p.rng.randrange(k)])] = p.rng.choice(
                                    [0, T, T / 2, -T / 3, T * 2, T * F(1000001, 1000000), -T / 1000000])
                        return xs

                    kw[a], f = sc.array("y_" + a, m, kind, draw=draw if a == "offsets" else None)
                    if a == "offsets":
                        bad.append(sc.exists(n, lambda i, f=f: t.lor(t.lt(f(i), ZERO), t.gt(f(i), tau))))
                    else:
                        bad.append(t.ne(m, n))
                out = sc.call("DynamicDecouplingSequence", **kw)
                if part == "acceptance":
                    ck.rejects(o, sc, out, t.lor(*bad))
                else:
                    ck.only(o, sc, out)

            ck.guard("%s from %s" % (part, kind),
                     "raises exactly when the duration is not positive, an offset is outside it or lengths differ",
                     WHERE, ob)
        for label, k in (("n", None), ("n=0", q(0)), ("n=1", q(1)), ("n=2", q(2)), ("n=3", q(3))):
            for named in (False, True):

                def fields(o, kind=kind, k=k, named=named):
                    sc = ck.scenario(o.name)
                    n = k if k is not None else sc.int("n", "nonneg")
                    name = sc.str("label") if named else None
                    out, f = sequence(sc, n, kind, name)
                    spec = {a: A(n, f[a]) for a in ARRAYS}
                    spec["duration"] = f["duration"]
                    spec["name"] = name if named else NONE
                    ck.equal(o, sc, out, sc.attrs(out, list(spec)), R(spec))

                ck.guard("fields, %s from %s%s" % (label, kind, ", named" if named else ""),
                         "stored arrays, duration and name equal the inputs", WHERE, fields)
