"""Valuations that satisfy a scenario's assumptions, including ones on the boundary of comparisons."""

import random
import time
from fractions import Fraction as F

import mpmath

from . import evalt
from . import terms as t
from .evalt import Env, Undefined, Unknown
from .terms import T, ZERO

REALS = [F(0), F(1), F(-1), F(1, 2), F(2), F(3), F(-2), F(1, 3), F(5, 2), F(10), F(-7, 3), F(7),
         F(1, 1000), F(1000), F(123, 10), F(-1, 1000)]
NAMES = ["a", "pulse", "", "a,b", "X", "name with space", "100"]


class Pool:
    """Default valuation: lengths, reals, integers, strings."""

    def __init__(self, scn, seed=1):
        self.scn = scn
        self.rng = random.Random(seed)
        self.big = []  # large counts at which the terms compared may change

    def large(self):
        """Occasionally a count about one of the large constants in the terms."""
        if self.big and self.rng.random() < 0.06:
            return F(self.rng.choice(self.big) + self.rng.choice([-1, 0, 1, 1, 2, 3]))

    def real(self, sign=None, wide=False):
        r = self.rng
        for _ in range(50):
            k = r.random()
            if k < 0.45:
                v = r.choice(REALS)
            elif k < 0.9:
                v = F(r.randint(-4000, 4000), r.randint(1, 400))
            else:
                v = F(r.randint(-9, 9)) * F(10) ** r.randint(-12, 12)
            if sign == "pos" and v == 0 or sign == "nonzero" and v == 0:
                continue
            if sign in ("pos", "nonneg") and v < 0:
                v = -v
            if sign == "neg" and v >= 0:
                v = -v if v else F(-1)
            return v
        return F(1)

    def reals(self, sign, k):
        """k reals: unrelated, all equal, nearly equal, mostly zero, or of one tiny or huge scale."""
        mode = self.rng.random()
        if mode < 0.2:
            return [self.real(sign)] * k
        if mode < 0.3:
            v, eps = self.real(sign), self.rng.choice([F(1, 10 ** 6), F(1, 10 ** 9), F(1, 10 ** 4)])
            return [v * (1 + eps * self.rng.randint(0, 5)) for _ in range(k)]
        vs = [self.real(sign) for _ in range(k)]
        if mode > 0.9 and sign in (None, "nonneg", "nonpos"):
            return [F(0) if self.rng.random() < 0.6 else v for v in vs]
        if mode < 0.42:
            s = F(10) ** self.rng.choice([-15, -12, -9, -6, 6, 9])
            vs = [v * s for v in vs]
        return vs

    def integer(self, sign=None):
        v = F(self.rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -3, 10, 12]))
        if self.rng.random() < 0.04:
            v = F(self.rng.choice([16, 21, 25, 33, 50, 64]))
        v = self.large() or v
        if sign in ("pos", "nonneg") and v < 0:
            v = -v
        if sign == "pos" and v == 0:
            v = F(1)
        return v

    def angle(self):
        r = self.rng
        if r.random() < 0.5:
            v = mpmath.mp.pi * r.choice([1, 2, -1, 4, -4]) / r.choice([1, 2, 4, 3, 1])
            if r.random() < 0.3:
                v += mpmath.mpf(r.choice([-1, 1])) / r.choice([20, 200, 2000, 8000])
            return v
        return self.real()


class Scn:
    """Declared inputs of a scenario: how to value its free symbols."""

    def __init__(self):
        self.syms = {}  # sym -> callable(pool, env) -> value
        self.arrays = {}  # arrsym -> (length term, callable(pool, env, n) -> list)
        self.order = []

    def sym(self, s, fn=None):
        if s not in self.syms:
            self.order.append(s)
        self.syms[s] = fn or self.default(s)
        return s

    def array(self, a, n, fn=None):
        self.arrays[a] = (n, fn)
        return a

    def default(self, s):
        sort = s.args[1]
        sign = t.SYM_PROPS.get(s, {}).get("sign")
        if sort == "int":
            return lambda p, e: p.integer(sign)
        if sort == "bool":
            return lambda p, e: p.rng.random() < 0.5
        if sort == "str":
            return lambda p, e: p.rng.choice(NAMES)
        return lambda p, e: p.real(sign)

    def draw(self, pool):
        e = Env({}, {})
        for s in self.order:
            e.syms[s] = self.syms[s](pool, e)
        for a, (n, fn) in self.arrays.items():
            k = e.count(n)
            if fn is not None:
                e.arrays[a] = fn(pool, e, k)
            else:
                sign = t.SYM_PROPS.get(a, {}).get("sign")
                if a.args[1] == "int":
                    e.arrays[a] = [pool.integer(sign) for _ in range(k)]
                else:
                    e.arrays[a] = pool.reals(sign, k)
        return e


def sign_ok(v, sign):
    if sign is None or isinstance(v, (str, bool)):
        return True
    return {"pos": v > 0, "nonneg": v >= 0, "neg": v < 0, "nonpos": v <= 0, "nonzero": v != 0}.get(sign, True)


def declared(scn, env):
    """The valuation respects the declared sign of every input."""
    for s in scn.order:
        if not sign_ok(env.syms[s], t.SYM_PROPS.get(s, {}).get("sign")):
            return False
    for a in scn.arrays:
        sign = t.SYM_PROPS.get(a, {}).get("sign")
        if sign and not all(sign_ok(v, sign) for v in env.arrays[a]):
            return False
    return True


def satisfied(env, facts):
    for f in facts:
        try:
            if not env.truth(f):
                return False
        except (Unknown, Undefined):
            return False
    return True


def comparisons(xs):
    out, seen = [], set()
    for x in xs:
        for c in t.atoms(x, lambda y: y.op in ("lt", "le", "eqz")):
            if c.args[0] not in seen:
                seen.add(c.args[0])
                out.append(c.args[0])
        for c in t.atoms(x, lambda y: y.op == "floor"):
            # a quotient by a large constant: values about the first wrap are worth hitting
            a = c.args[0]
            if a not in seen and t.is_const_scaled(a, 16):
                seen.add(a)
                out.append(t.sub(a, t.ONE))
    return out


def thresholds(xs):
    """Whole constants between 65 and 2100 in comparisons and quotients."""
    out = set()
    for x in xs:
        for c in t.atoms(x, lambda y: y.op in ("lt", "le", "eqz", "floor")):
            for m, k in t.to_poly(c.args[0]).items():
                v = k.denominator if c.op == "floor" else abs(k) if not m else 0
                if v == int(v) and 65 <= v <= 2100:
                    out.add(int(v))
        for c in t.atoms(x, lambda y: y.op == "max"):
            for a in c.args:
                for m, k in t.to_poly(a).items():
                    if not m and k == int(k) and 65 <= abs(k) <= 2100:
                        out.add(abs(int(k)))
    return sorted(out)[:12]


def boundary(env, d, pool, scn):
    """A copy of env in which the comparison polynomial d is zero or nearly so."""
    rng = pool.rng
    e = env.copy()
    from .facts import _free_bvs

    for h in _free_bvs(d):
        e.syms[t.bv(h)] = F(rng.randint(0, 4))
    if d.op == "poly":
        items = d.args[0]
    else:
        items = ((((d, 1),), F(1)),)
    cands = []
    for m, c in items:
        for a, k in m:
            if k == 1 and ((a.op == "sym" and a in scn.syms) or (a.op == "elem" and a.args[0] in scn.arrays)):
                cands.append(a)
            if k == 1 and a.op == "abs" and a.args[0].op in ("sym", "elem"):
                cands.append(a)
    if not cands:
        return None
    a = rng.choice(cands)
    A, B = F(0), F(0)
    for m, c in items:
        ks = dict(m)
        if ks.get(a, 0) == 1:
            ks.pop(a)
            A = evalt.add(A, e.num(t.from_poly({tuple(ks.items()): c})))
        elif a in ks:
            return None
        else:
            B = evalt.add(B, e.num(t.from_poly({m: c})))
    if A == 0:
        return None
    v = -B / A if isinstance(A, F) and isinstance(B, F) else -evalt.mpf(B) / evalt.mpf(A)
    k = rng.random()
    tgt = a.args[0] if a.op == "abs" else a
    isint = t.is_int(tgt)
    if isint:
        if not isinstance(v, F):
            v = F(int(mpmath.nint(v)))
        v = F(round(v)) + rng.choice([0, 0, 1, -1, 1, -1])
    else:
        eps = rng.choice([F(1, 10 ** 6), F(1, 10 ** 3), F(1, 10), F(1, 10 ** 9)])
        step = abs(v) * eps if v != 0 else eps
        if k < 0.25:
            v = v + step
        elif k < 0.5:
            v = v - step
    if a.op == "abs" and rng.random() < 0.5:
        v = -v
    for h in _free_bvs(d):
        pass
    if tgt.op == "sym":
        e.syms[tgt] = v
    else:
        ix = [evalt.as_int(e.num(i)) for i in tgt.args[1:]]
        arr = e.arrays[tgt.args[0]]
        if len(ix) != 1 or not 0 <= ix[0] < len(arr):
            return None
        arr = list(arr)
        arr[ix[0]] = v
        e.arrays[tgt.args[0]] = arr
    for h in _free_bvs(d):
        e.syms.pop(t.bv(h), None)
    if tgt.op == "sym":
        # lengths may have changed
        for a2, (n, fn) in scn.arrays.items():
            if t.depends(n, tgt):
                return None
    return Env(e.syms, e.arrays)


def valuations(scn, facts, hints, seed=1, seconds=4.0, limit=2500):
    """Environments satisfying the facts; hints are terms whose comparisons are worth hitting."""
    pool = Pool(scn, seed)
    end = time.time() + seconds
    cmps = comparisons(hints)[:60]
    pool.big = thresholds(hints)
    n = 0
    tries = 0
    while n < limit and time.time() < end and tries < 40 * limit:
        tries += 1
        try:
            e = scn.draw(pool)
        except (Unknown, Undefined):
            continue
        if tries % 3 and cmps:
            for _ in range(pool.rng.choice((1, 1, 2))):
                try:
                    b = boundary(e, pool.rng.choice(cmps), pool, scn)
                except (Unknown, Undefined, ZeroDivisionError):
                    b = None
                if b is not None:
                    e = b
        if not declared(scn, e) or not satisfied(e, facts):
            continue
        n += 1
        yield e
