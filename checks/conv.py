"""Sequences with known pulse layout, and the driven control they must become."""

from fractions import Fraction as F

from pyvg import terms as t
from pyvg.check import E, R
from pyvg.terms import NONE, ONE, PI, ZERO, q

TINY = q("1/100000000")
FIELDS = ["durations", "rabi_rates", "azimuthal_angles", "detunings", "name"]
KINDS = "XPNI"  # Rabi pulse, positive / negative detuning pulse, identity


class Layout:
    """Pulses and gaps of an accepted sequence.

    kinds: one letter per operation; first/last: whether the first/last operation sits exactly at 0/the end;
    gaps: for each gap, 0 (as short as allowed) or 1 (longer); least: minimum segment duration is positive.
    """

    def __init__(self, sc, kinds, first, last, gaps, least, rates=None, short=None, whole=False):
        self.sc, self.kinds, self.first, self.last, self.whole = sc, kinds, first, last, whole
        if whole:
            # unit rates, even rotations and whole gaps: every offset is a whole number
            rates = ONE, ONE
        # pulses of order one, or of microseconds at rates of megahertz
        fast = lambda p, e: p.real("pos") * p.rng.choice([1, 1, 10 ** 6, 10 ** 9])
        self.rate, self.drate = rates or (sc.real("rate", "pos", fast), sc.real("drate", "pos", lambda p, e: p.real(
            "pos") * max(F(1), F(10) ** (len(str(int(e.ev(self.rate)))) - 2))))

        def unit(e):
            r = e.ev(self.rate)
            return 1 / r if r > 1000 else F(1)

        self.least = sc.real("least", "pos", lambda p, e: abs(p.real("pos")) / 50 * unit(e)) if least else ZERO
        self.rot = []
        small = lambda p, e: abs(p.real("pos")) + F(1, 10 ** 6)
        for j, k in enumerate(kinds):
            az = sc.int("az%d" % j) if whole else sc.real("az%d" % j)
            if whole and k != "I":
                r = t.mul(q(2), sc.int("rot%d" % j, "pos"))
                sc.assume(t.gt(r, TINY))
                self.rot.append((r, az, ZERO) if k == "X" else (ZERO, az, r if k == "P" else t.neg(r)))
            elif k == "X":
                r = sc.real("rot%d" % j, "pos", small)
                sc.assume(t.gt(r, TINY))
                self.rot.append((r, az, ZERO))
            elif k in "PN":
                r = sc.real("rot%d" % j, "pos", small)
                sc.assume(t.gt(r, TINY))
                self.rot.append((ZERO, az, r if k == "P" else t.neg(r)))
            elif k in "xpn":
                # too small to be realised
                r = sc.real("rot%d" % j, "pos", lambda p, e: F(p.rng.randint(1, 99), 100) / 10 ** 8)
                sc.assume(t.lt(r, TINY))
                self.rot.append((r, az, ZERO) if k == "x" else (ZERO, az, r if k == "p" else t.neg(r)))
            elif k in "YZM":
                # operations that cannot be realised: Rabi with positive / negative detuning, negative Rabi
                r, d = sc.real("rot%d" % j, "pos", small), sc.real("det%d" % j, "pos", small)
                self.rot.append((t.neg(r), az, ZERO) if k == "M" else (r, az, d if k == "Y" else t.neg(d)))
            else:
                self.rot.append((ZERO, az, ZERO))
        n = len(kinds)
        self.width = [ZERO if k in "xpn" else self._width(r) for k, r in zip(kinds, self.rot)]
        # gaps before operation j (j = 0..n); none at an end where an operation sits
        self.gap = []
        m = n + 1 - (1 if first and n else 0) - (1 if last and n else 0)
        assert len(gaps) == m, (kinds, first, last, gaps)
        for j, g in enumerate(gaps):
            h = sc.int("gap%d" % j, "pos") if whole else sc.real("gap%d" % j, "pos", lambda p, e: p.real("pos") * unit(e)) if g else ZERO
            self.gap.append(t.add(self.least, h))
        if short is not None:
            # too short by more than any tolerance relative to the minimum segment or the whole sequence
            lack = sc.real("lack", "pos", lambda p, e: abs(p.real("pos")) / 4 * unit(e))
            rest = t.add(*(self.width + [g for j, g in enumerate(self.gap) if j != short]))
            edge = t.sub(t.mul(self.least, q("99998/100000")), t.mul(q("2/100000000"), rest))
            self.gap[short] = t.div(t.sub(edge, lack), q("100000002/100000000"))
        # timeline: list of (width, rabi, azimuth, detuning)
        self.parts, self.offsets = [], []
        pos, gi = ZERO, 0
        for j in range(n):
            if j > 0 or not first:
                self.parts.append(("gap", self.gap[gi]))
                pos = t.add(pos, self.gap[gi])
                gi += 1
            w = self.width[j]
            if j == 0 and first:
                self.offsets.append(ZERO)
            elif j == n - 1 and last:
                self.offsets.append(t.add(pos, w))
            else:
                self.offsets.append(t.add(pos, t.div(w, q(2))))
            self.parts.append(("pulse", j))
            pos = t.add(pos, w)
        if not (last and n):
            self.parts.append(("gap", self.gap[gi]))
            pos = t.add(pos, self.gap[gi])
        self.tau = pos

    def _width(self, r):
        rabi, _, det = r
        if rabi is not ZERO:
            return self._max(t.div(t.absv(rabi), self.rate))
        if det is not ZERO:
            return self._max(t.div(t.absv(det), self.drate))
        return ZERO

    def _max(self, x):
        return x if self.least is ZERO else t.vmax(x, self.least)

    def sequence(self, name=None):
        sc = self.sc
        mk = lambda xs: sc.S.elems(xs, "int" if self.whole else "float", "ndarray")
        kw = {} if name is None else {"name": name}
        return sc.call("DynamicDecouplingSequence", duration=self.tau, offsets=mk(self.offsets),
                       rabi_rotations=mk([r[0] for r in self.rot]), azimuthal_angles=mk([r[1] for r in self.rot]),
                       detuning_rotations=mk([r[2] for r in self.rot]), **kw)

    def segments(self):
        out = []
        for kind, v in self.parts:
            if kind == "gap":
                if v is not ZERO:
                    out.append((v, ZERO, ZERO, ZERO))
            else:
                w = self.width[v]
                if w is ZERO:
                    continue
                rabi, az, det = self.rot[v]
                out.append((w, t.div(rabi, w), az if rabi is not ZERO else ZERO, t.div(det, w)))
        return out

    def control(self, name=None):
        s = self.segments()
        return R({"durations": E([x[0] for x in s]), "rabi_rates": E([x[1] for x in s]),
                  "azimuthal_angles": E([x[2] for x in s]), "detunings": E([x[3] for x in s]),
                  "name": name if name is not None else NONE})


def layouts(n, kinds=KINDS):
    """All (kinds, first, last) with n operations."""
    def words(k):
        return [""] if k == 0 else [w + c for w in words(k - 1) for c in kinds]

    for w in words(n):
        for first in (False, True):
            for last in (False, True):
                if n == 0 and (first or last):
                    continue
                if n == 1 and first and last:
                    continue
                yield w, first, last


def gap_count(w, first, last):
    return len(w) + 1 - int(first) - int(last)


def convert(sc, lay, out, name=None, **kw):
    kw.setdefault("maximum_rabi_rate", lay.rate)
    kw.setdefault("maximum_detuning_rate", lay.drate)
    if name is not None:
        kw["name"] = name
    if lay.least is not ZERO:
        kw["minimum_segment_duration"] = lay.least
    if out.st is None:
        return out
    out.enter()
    o = sc.S.call(sc.S.export("convert_dds_to_driven_control"), [], dict(kw, dynamic_decoupling_sequence=out.value))
    o.scenario, o.base = sc, out
    return o
