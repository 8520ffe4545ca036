"""Published definitions of the decoupling sequences."""

from fractions import Fraction as F

from pyvg import terms as t
from pyvg.check import A, E, R
from pyvg.terms import NONE, ONE, PI, ZERO, q

HALF_PI = t.div(PI, q(2))
X, Y, Z = (PI, ZERO, ZERO), (PI, HALF_PI, ZERO), (ZERO, ZERO, PI)
FIELDS = ["duration", "offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations", "name"]
COUNTED = ("carr_purcell", "cpmg", "uhrig", "periodic")
AXIS = {"carr_purcell": X, "cpmg": Y, "uhrig": Y, "periodic": X, "spin_echo": X, "walsh": X}


class Pulses:
    """n pulses; offset(i) relative to the duration; kind(i) -> (rabi, azimuth, detuning)."""

    def __init__(self, n, offset, kind, xz_parity):
        self.n, self.offset, self.kind, self.xz = n, offset, kind, xz_parity


def entry(s):
    return "new_%s_sequence" % s


def explicit(items):
    """items: list of (relative offset, kind)."""
    items = list(items)

    def at(i, fn):
        xs = [fn(x) for x in items]
        if i.op == "q":
            return xs[int(i.args[0])]
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = t.ite(t.eq(i, q(k)), xs[k], r)
        return r

    odd = sum(1 for _, k in items if k in (X, Z)) % 2
    return Pulses(q(len(items)), lambda i: at(i, lambda x: x[0] if hasattr(x[0], "op") else q(x[0])),
                  lambda i: tuple(at(i, lambda x, c=c: x[1][c]) for c in range(3)), q(odd))


def counted(s, m):
    if s == "carr_purcell" or s == "cpmg":
        off = lambda i: t.div(t.add(i, q("1/2")), m)
    elif s == "uhrig":
        off = lambda i: t.ipow(t.sin(t.div(t.mul(PI, t.add(i, ONE)), t.add(t.mul(q(2), m), q(2)))), 2)
    else:
        off = lambda i: t.div(t.add(i, ONE), t.add(m, ONE))
    return Pulses(m, off, lambda i: AXIS[s], t.mod(m, q(2)) if AXIS[s] is X else ZERO)


def quadratic(mi, mo):
    uhrig = lambda k, m: t.ipow(t.sin(t.div(t.mul(PI, k), t.add(t.mul(q(2), m), q(2)))), 2)
    outer = lambda j: uhrig(j, mo)  # j = 0 .. mo+1 gives 0 .. 1
    w = t.add(mi, ONE)
    n = t.sub(t.mul(t.add(mo, ONE), w), ONE)

    def place(i):
        j = t.floor(t.div(i, w))
        return j, t.add(t.sub(i, t.mul(j, w)), ONE)

    def off(i):
        j, k = place(i)
        a, b = outer(j), outer(t.add(j, ONE))
        return t.ite(t.le(k, mi), t.add(a, t.mul(t.sub(b, a), uhrig(k, mi))), b)

    def kind(i):
        j, k = place(i)
        c = t.le(k, mi)
        return t.ite(c, ZERO, PI), ZERO, t.ite(c, PI, ZERO)

    return Pulses(n, off, kind, None)


def walsh(k):
    h = k.bit_length()
    n = 2 ** h
    # Rademacher j (1..h) on sample i: sign from bit h-j of i, present if bit j-1 of k is set
    sign = [0] * n
    for j in range(1, h + 1):
        if k >> (j - 1) & 1:
            for i in range(n):
                sign[i] ^= i >> (h - j) & 1
    return explicit([(F(i + 1, n), X) for i in range(n - 1) if sign[i] != sign[i + 1]])


def x_concatenated(order):
    p = {}
    for _ in range(order):
        r = {}
        for x, c in list(p.items()):
            for y in (x / 2, x / 2 + F(1, 2)):
                r[y] = r.get(y, 0) ^ c
        for y in (F(1, 2), F(1)):
            r[y] = r.get(y, 0) ^ 1
        p = r
    return explicit([(x, X) for x in sorted(p) if p[x] and x != 1])


def xy_concatenated(order):
    p = {}  # time -> element of the Klein group as (x, y) bits
    for _ in range(order):
        r = {}
        for x, g in p.items():
            for j in range(4):
                y = x / 4 + F(j, 4)
                a = r.get(y, (0, 0))
                r[y] = (a[0] ^ g[0], a[1] ^ g[1])
        for j, g in ((1, (1, 0)), (2, (0, 1)), (3, (1, 0)), (4, (0, 1))):
            a = r.get(F(j, 4), (0, 0))
            r[F(j, 4)] = (a[0] ^ g[0], a[1] ^ g[1])
        p = r
    name = {(1, 0): X, (0, 1): Y, (1, 1): Z}
    return explicit([(x, name[p[x]]) for x in sorted(p) if p[x] != (0, 0)])


def record(p, tau, pre_post, name):
    if not pre_post:
        return R({"duration": tau, "offsets": A(p.n, lambda i: t.mul(tau, p.offset(i))),
                  "rabi_rotations": A(p.n, lambda i: p.kind(i)[0]),
                  "azimuthal_angles": A(p.n, lambda i: p.kind(i)[1]),
                  "detuning_rotations": A(p.n, lambda i: p.kind(i)[2]),
                  "name": name if name is not None else NONE})
    n = t.add(p.n, q(2))
    end = t.ite(t.eq(p.xz, ZERO), PI, ZERO)

    def wrap(first, fn, last):
        def at(i):
            if i.op == "q" and n.op == "q":
                k, m = int(i.args[0]), int(n.args[0])
                return first if k == 0 else last if k == m - 1 else fn(t.sub(i, ONE))
            return t.ite(t.eq(i, ZERO), first, t.ite(t.eq(i, t.sub(n, ONE)), last, fn(t.sub(i, ONE))))

        return A(n, at)

    return R({"duration": tau, "offsets": wrap(ZERO, lambda i: t.mul(tau, p.offset(i)), tau),
              "rabi_rotations": wrap(HALF_PI, lambda i: p.kind(i)[0], HALF_PI),
              "azimuthal_angles": wrap(ZERO, lambda i: p.kind(i)[1], end),
              "detuning_rotations": wrap(ZERO, lambda i: p.kind(i)[2], ZERO),
              "name": name if name is not None else NONE})


def obligation(ck, label, scheme, args, pulses, pre_post, rule, named=False, whole=False):
    """args/pulses: functions of the scenario; whole: the duration is given as an integer."""

    def ob(o):
        sc = ck.scenario(o.name)
        tau = sc.int("tau", "pos") if whole else sc.real("tau", "pos")
        kw = args(sc)
        p = pulses(sc, kw)
        name = None
        if named:
            name = kw["name"] = sc.str("label")
        call = {"duration": tau}
        call.update({k: v for k, v in kw.items() if not k.startswith("_")})
        if pre_post != "default":
            call["pre_post_rotation"] = t.TRUE if pre_post else t.FALSE
        out = sc.call(entry(scheme), **call)
        ck.equal(o, sc, out, sc.attrs(out, FIELDS), record(p, tau, pre_post is True, name))

    ck.guard(label + (", whole duration" if whole else ""), rule, entry(scheme), ob)
