"""Entailment between boolean terms: what the guards on a path imply."""

from fractions import Fraction as F

from . import terms as t
from .terms import T, ZERO, TRUE, FALSE

NEG, ZER, POS = -1, 0, 1
ALL = frozenset((-1, 0, 1))
NONNEG = frozenset((0, 1))
NONPOS = frozenset((-1, 0))
PLUS = frozenset((1,))
MINUS = frozenset((-1,))
ZSET = frozenset((0,))

PROPS = {"pos": PLUS, "nonneg": NONNEG, "neg": MINUS, "nonpos": NONPOS, "nonzero": frozenset((-1, 1))}


def _mono_low(items):
    """Common monomial including the denominators of some terms only."""
    low = {}
    for m, _ in items:
        for a, e in m:
            if a.op not in ("inv", "I", "sqrt", "cos"):
                low.setdefault(a, []).append(e)
    n = len(items)
    g = {a: min(es + ([0] if len(es) < n else [])) for a, es in low.items()}
    return tuple(sorted(((a, e) for a, e in g.items() if e), key=lambda x: x[0].id))


class Facts:
    """An immutable conjunction of boolean terms."""

    __slots__ = ("items", "set", "ineqs", "foralls", "_sign", "_dec", "parent", "_eqs", "_pts")

    def __init__(self, items=(), parent=None):
        self.parent = parent
        flat = []
        for x in items:
            if x.op == "and":
                flat.extend(x.args)
            elif x is not TRUE:
                flat.append(x)
        if parent is not None:
            self.items = parent.items + tuple(flat)
            self.set = parent.set.union(flat)
            ineqs = list(parent.ineqs)
            foralls = list(parent.foralls)
        else:
            self.items = tuple(flat)
            self.set = frozenset(flat)
            ineqs = []
            foralls = []
        for f in flat:
            if f.op in ("lt", "le"):
                ineqs.append((f.args[0], f.op == "lt"))
            elif f.op == "eqz":
                ineqs.append((f.args[0], False))
                ineqs.append((t.neg(f.args[0]), False))
            elif f.op == "forall":
                foralls.append(f)
        self.ineqs = ineqs
        self.foralls = foralls
        self._sign = {}
        self._dec = {}
        self._eqs = None
        self._pts = None

    def add(self, *fs):
        fs = [f for f in fs if f is not TRUE and f not in self.set]
        if not fs:
            return self
        return Facts(fs, self)

    def __len__(self):
        return len(self.items)

    # ------------------------------------------------------------------------------------------
    def sign(self, x, depth=2):
        key = (x, depth)
        r = self._sign.get(key)
        if r is None:
            p = self.parent
            while p is not None:
                r = p._sign.get(key)
                if r is not None and len(r) <= 1:
                    self._sign[key] = r
                    return r
                p = p.parent
            self._sign[key] = ALL  # cut recursion
            r = self._sign[key] = self._sign_uncached(x, depth)
        return r

    def _sign_uncached(self, x, depth):
        if x.op == "q":
            c = x.args[0]
            return frozenset(((c > 0) - (c < 0),))
        v = t.const_value(x)
        if v is not None and abs(v) > 1e-9:
            return PLUS if v > 0 else MINUS
        s = self._sign_struct(x, depth)
        if len(s) == 1:
            return s
        # facts of the same shape
        s = self._refine(x, s)
        if len(s) == 1 or depth <= 0:
            return s
        if x.op == "poly" or True:
            s = self._linear(x, s, depth)
        return s

    def _refine(self, x, s):
        if x.op == "poly" and len(x.args[0]) > 0:
            pass
        if t._mk_lt(x) in self.set:
            s = s & MINUS
        elif t._mk_le(x) in self.set:
            s = s & NONPOS
        n = t.neg(x)
        if t._mk_lt(n) in self.set:
            s = s & PLUS
        elif t._mk_le(n) in self.set:
            s = s & NONNEG
        e = t._eqz_of(x) if x.op == "poly" else t.mk("eqz", x)
        if e in self.set:
            s = s & ZSET
        elif t.mk("not", e) in self.set:
            s = s - ZSET
        return s

    def _linear(self, x, s, depth):
        """x = lam*f + r with a known f <= 0 (or < 0) and sign of r."""
        px = t.to_poly(x)
        for f, strict in self._usable(px):
            pf = t.to_poly(f)
            cands = set()
            for m, c in pf.items():
                if m and m in px:
                    cands.add(px[m] / c)
            for lam in cands:
                r = t.sub(x, t.mul(t.q(lam), f))
                if len(t.to_poly(r)) > max(len(px), len(pf)):
                    continue
                rs = self.sign(r, depth - 1)
                # lam*f has sign <=0 if lam>0
                fs = (MINUS if strict else NONPOS) if lam > 0 else (PLUS if strict else NONNEG)
                s = s & _add(fs, rs)
                if len(s) <= 1:
                    return s
        return s

    def _usable(self, px):
        out = []
        for f, strict in self.ineqs:
            pf = t.to_poly(f)
            if any(m and m in px for m in pf):
                out.append((f, strict))
        # instances of universally quantified facts for array elements that occur in px
        for fa in self.foralls:
            lam = fa.args[1]
            for idx in _indices(px):
                if not self._in_range(idx, fa.args[0]):
                    continue
                body = t.apply_lam(lam, idx)
                for b in (body.args if body.op == "and" else (body,)):
                    if b.op in ("lt", "le"):
                        pf = t.to_poly(b.args[0])
                        if any(m and m in px for m in pf):
                            out.append((b.args[0], b.op == "lt"))
        return out[:40]

    def _points(self):
        """Index symbols about whose array elements something is known."""
        if self._pts is None:
            out = []
            for f in self.items:
                if f.op in ("forall", "exists"):
                    continue
                for e in t.atoms(f, lambda x: x.op == "elem" and len(x.args) == 2):
                    if e.args[1].op == "sym" and e.args[1] not in out:
                        out.append(e.args[1])
            self._pts = out[:6]
        return self._pts

    def _in_range(self, idx, n):
        return self.decide(t.ge(idx, ZERO), 1) is TRUE and self.decide(t.lt(idx, n), 1) is TRUE

    def _sign_struct(self, x, depth):
        op = x.op
        if op == "pi":
            return PLUS
        if op in ("sym",):
            return PROPS.get(t.SYM_PROPS.get(x, {}).get("sign"), ALL)
        if op == "elem":
            return PROPS.get(t.SYM_PROPS.get(x.args[0], {}).get("sign"), ALL)
        if op == "poly":
            tot = None
            for m, c in x.args[0]:
                s = PLUS if c > 0 else MINUS
                for a, e in m:
                    sa = self.sign(a, depth)
                    s = _mulsign(s, _powsign(sa, e))
                tot = s if tot is None else _add(tot, s)
                if tot == ALL:
                    break
            if tot == ALL or len(tot) == 2:
                g = _mono_low(x.args[0])
                if g:
                    rest = t.from_poly({t._mono_div(m, g): c for m, c in x.args[0]})
                    sg = PLUS
                    for a, e in g:
                        sg = _mulsign(sg, _powsign(self.sign(a, depth), e))
                    sr = self.sign(rest, depth)
                    tot = tot & _mulsign(sg, sr)
            if (tot == ALL or len(tot) == 2) and depth > 0:
                tot = tot & self._sign_shape(x, depth - 1)
            return tot
        if op in ("abs", "sqrt"):
            s = self.sign(x.args[0], depth - 1) if depth > 0 else ALL
            if 0 not in s:
                return PLUS
            return NONNEG
        if op == "exp":
            return PLUS
        if op == "inv":
            s = self.sign(x.args[0], depth)
            return s - ZSET if s != ALL else frozenset((-1, 1))
        if op == "max":
            ss = [self.sign(a, depth) for a in x.args]
            hi = set()
            # sign of max is max of signs
            import itertools

            for combo in itertools.product(*ss):
                hi.add(max(combo))
            return frozenset(hi)
        if op == "ite":
            c = x.args[0]
            fa = self.add(c)
            fb = self.add(t.lnot(c))
            return fa.sign(x.args[1], depth - 1 if depth else 0) | fb.sign(
                x.args[2], depth - 1 if depth else 0)
        if op == "pow":
            if self.sign(x.args[0], depth) <= PLUS:
                return PLUS
            return ALL
        if op in ("sum",):
            s = self._body_sign(x, depth)
            if s <= NONNEG:
                if s == PLUS and self.sign(x.args[0], depth) == PLUS:
                    return PLUS
                return NONNEG
            if s <= NONPOS:
                return NONPOS
            return ALL
        if op in ("amax", "rank"):
            return self._body_sign(x, depth)
        if op == "prod":
            s = self._body_sign(x, depth)
            if s == PLUS:
                return PLUS
            if s <= NONNEG:
                return NONNEG
            return ALL
        if op == "floor":
            s = self.sign(x.args[0], depth)
            if s <= NONNEG:
                return NONNEG
            if s <= MINUS:
                return MINUS
            return ALL
        if op in ("nth", "bit", "strlen", "argrank"):
            return NONNEG
        if op == "log2":
            if self.sign(t.sub(x.args[0], t.ONE), depth) <= NONNEG:
                return NONNEG
            return ALL
        if op == "arccos":
            return NONNEG
        if op == "trunc":
            s = self.sign(x.args[0], depth)
            if s <= NONNEG:
                return NONNEG
            if s <= NONPOS:
                return NONPOS
            return ALL
        if op == "sgn":
            return self.sign(x.args[0], depth)
        return ALL

    def _sign_shape(self, x, depth):
        """Polynomials with a common denominator or a bounded trigonometric factor."""
        dens, trig = {}, {}
        for m, _ in x.args[0]:
            for a, e in m:
                if a.op == "inv":
                    dens[a] = max(e, dens.get(a, 0))
                elif a.op in ("sin", "cos"):
                    trig.setdefault(a, set()).add(e)
        for a, k in dens.items():
            sd = self.sign(a.args[0], depth)
            if 0 in sd or len(sd) != 1:
                continue
            tot = ZERO
            for m, c in x.args[0]:
                d = dict(m)
                e = d.pop(a, 0)
                y = t.from_poly({tuple(sorted(d.items(), key=lambda z: z[0].id)): c})
                tot = t.add(tot, t.mul(y, t.ipow(a.args[0], k - e)) if k > e else y)
            return _mulsign(_powsign(sd, k), self.sign(tot, depth))
        if len(trig) > 5:
            return ALL
        for a, es in trig.items():
            if len(es) != 1 or min(es) < 0:
                continue
            (e,) = es
            rest, coef = {}, {}
            for m, c in x.args[0]:
                d = dict(m)
                if a in d:
                    d.pop(a)
                    coef[tuple(sorted(d.items(), key=lambda z: z[0].id))] = c
                else:
                    rest[m] = c
            r, b = t.from_poly(rest), t.from_poly(coef)
            s0 = self.sign(r if e % 2 == 0 else t.sub(r, b), depth + 1)
            s1 = self.sign(t.add(r, b), depth + 1)
            u = s0 | s1
            if 1 in u and -1 in u:
                return ALL
            return u
        return ALL

    def _body_sign(self, x, depth):
        v = t.fresh("s", "int", sign="nonneg")
        body = t.apply_lam(x.args[1], v)
        return self.add(t.lt(v, x.args[0])).sign(body, max(0, depth - 1))

    # ------------------------------------------------------------------------------------------
    def decide(self, c, depth=2):
        """TRUE, FALSE or None."""
        if c.op == "bool":
            return c
        r = self._dec.get(c, 0)
        if r == 0:
            p = self.parent
            while p is not None:
                r = p._dec.get(c)
                if r is not None:
                    self._dec[c] = r
                    return r
                p = p.parent
            self._dec[c] = None
            r = self._dec[c] = self._decide(c, depth)
        return r

    def _decide(self, c, depth):
        if c in self.set:
            return TRUE
        n = t.lnot(c)
        if n in self.set:
            return FALSE
        op = c.op
        if op in ("lt", "le", "eqz"):
            s = self.sign(c.args[0])
            if not s:
                return TRUE  # contradictory facts: unreachable
            if op == "lt":
                if s <= MINUS:
                    return TRUE
                if s <= NONNEG:
                    return FALSE
            elif op == "le":
                if s <= NONPOS:
                    return TRUE
                if s <= PLUS:
                    return FALSE
            else:
                if s <= ZSET:
                    return TRUE
                if 0 not in s:
                    return FALSE
            return self._decide_split(c, depth)
        if op == "not":
            r = self.decide(c.args[0], depth)
            return None if r is None else t.lnot(r)
        if op == "and":
            unknown = False
            for a in c.args:
                r = self.decide(a, depth)
                if r is FALSE:
                    return FALSE
                if r is None:
                    unknown = True
            return None if unknown else TRUE
        if op == "or":
            unknown = []
            for a in c.args:
                r = self.decide(a, depth)
                if r is TRUE:
                    return TRUE
                if r is None:
                    unknown.append(a)
            if not unknown:
                return FALSE
            for f in self.items:
                if f.op == "or" and set(f.args) <= set(c.args):
                    return TRUE
            if len(unknown) >= 2 and depth > 0:
                # a or b holds if b holds under not a
                fs = self.add(*[t.lnot(a) for a in unknown[:-1]])
                if fs.decide(unknown[-1], depth - 1) is TRUE:
                    return TRUE
            return None
        if op == "forall":
            v = t.fresh("v", "int", sign="nonneg")
            body = t.apply_lam(c.args[1], v)
            fs = self.add(t.lt(v, c.args[0]))
            extra = []
            for fa in self.foralls:
                if fa.args[0] is c.args[0] or self.decide(t.le(c.args[0], fa.args[0]), 0) is TRUE:
                    extra.append(t.apply_lam(fa.args[1], v))
            if extra:
                fs = fs.add(*extra)
            if depth > 0 and fs.decide(body, depth - 1) is TRUE:
                return TRUE
            if depth > 0:
                for idx in self._points():
                    if self._in_range(idx, c.args[0]) and \
                            self.decide(t.apply_lam(c.args[1], idx), depth - 1) is FALSE:
                        return FALSE
            return None
        if op == "exists":
            r = self.decide(t.lnot(c), depth)
            return None if r is None else t.lnot(r)
        if op == "ite":
            r = self.decide(c.args[0], depth)
            if r is TRUE:
                return self.decide(c.args[1], depth)
            if r is FALSE:
                return self.decide(c.args[2], depth)
        return None

    def _decide_split(self, c, depth):
        """Split on a gate inside a comparison."""
        if depth <= 0:
            return None
        gates = t.atoms(c, lambda x: x.op == "ite" and not _has_bv(x))
        for g in gates[:1]:
            k = g.args[0]
            a = t.subst(c, {g: g.args[1]})
            b = t.subst(c, {g: g.args[2]})
            ra = self.add(k).decide(a, depth - 1)
            if ra is None:
                return None
            rb = self.add(t.lnot(k)).decide(b, depth - 1)
            if ra is rb:
                return ra
        return None

    def equalities(self):
        """Substitution from equality facts that are linear in a symbol or array element."""
        r = self._eqs
        if r is None:
            r = {}
            for f in self.items:
                if f.op == "le" and (t._mk_le(t.neg(f.args[0])) in self.set or (
                        f.args[0].op == "sym" and self.sign(f.args[0]) == ZSET)):
                    f = t.mk("eqz", f.args[0])
                if f.op == "eqz":
                    d = t.subst(f.args[0], r) if r else f.args[0]
                    p = t.to_poly(d)
                    best = None
                    for m, c in p.items():
                        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("sym", "elem"):
                            a = m[0][0]
                            if any(t.depends(b, a) for m2 in p for b, _ in m2 if b is not a):
                                continue
                            if any(len(m2) > 1 and any(b is a for b, _ in m2) for m2 in p):
                                continue
                            if any(b is a and e != 1 for m2 in p for b, e in m2):
                                continue
                            if t.is_int(a) and not t.is_int(t.sub(t.mul(t.q(1 / c), d), a)):
                                continue
                            k = (a.op != "elem", -a.id)
                            if best is None or k < best[0]:
                                best = (k, a, t.sub(a, t.mul(t.q(1 / c), d)))
                    if best is not None:
                        _, a, e = best
                        r = {k: t.subst(v, {a: e}) for k, v in r.items()}
                        r[a] = e
            self._eqs = r
        return r

    def with_units(self):
        """Facts extended by disjunctions in which all but one alternative is excluded."""
        out = []
        for f in self.items:
            if f.op == "or":
                live = []
                for a in f.args:
                    r = self.decide(a, 1)
                    if r is TRUE:
                        live = None
                        break
                    if r is None:
                        live.append(a)
                if live is not None and len(live) == 1:
                    out.append(live[0])
        return self.add(*out)

    def inconsistent(self):
        for f in self.items:
            if f is FALSE:
                return True
            if t.lnot(f) in self.set:
                return True
        for f in self.items:
            others = Facts([g for g in self.items if g is not f])
            if others.decide(f, 1) is FALSE:
                return True
        return False

    # ------------------------------------------------------------------------------------------
    def simplify(self, x, memo=None):
        """Replace decided gates and conditions."""
        if not isinstance(x, T):
            return x
        if memo is None:
            memo = {}
        return self._simp(x, memo)

    def _simp(self, x, memo):
        r = memo.get(x)
        if r is not None:
            return r
        r = x
        if x.op in ("q", "bool", "none", "pi", "I", "sym", "str", "arrsym", "opaque"):
            pass
        elif t.is_bool(x) and x.op in ("lt", "le", "eqz", "not", "same") and not _has_bv(x):
            d = self.decide(x)
            if d is not None:
                r = d
            else:
                r = self._rebuild(x, memo)
        elif x.op in ("forall", "exists"):
            d = self.decide(x)
            r = d if d is not None else self._simp_binder(x, memo)
        elif x.op == "lam":
            r = x
        elif x.op in ("sum", "prod", "amax"):
            r = self._simp_binder(x, memo)
        elif x.op == "abs":
            inner = self._simp(x.args[0], memo)
            s = self.sign(inner)
            if s <= NONNEG:
                r = inner
            elif s <= NONPOS:
                r = t.neg(inner)
            else:
                r = t.absv(inner)
        elif x.op == "sgn":
            inner = self._simp(x.args[0], memo)
            s = self.sign(inner)
            r = t.q(list(s)[0]) if len(s) == 1 else t.sgn(inner)
        elif x.op == "floor":
            inner = self._simp(x.args[0], memo)
            r = t.floor(inner)
            if r.op == "floor" and not _has_bv(r):
                inner = r.args[0]
                if self.sign(inner) <= NONNEG and self.sign(t.sub(inner, t.ONE)) <= MINUS:
                    r = ZERO
                elif self.sign(inner) <= MINUS and self.sign(t.add(inner, t.ONE)) <= NONNEG:
                    r = t.neg(t.ONE)
        elif x.op == "trunc":
            inner = self._simp(x.args[0], memo)
            s = self.sign(inner)
            if s <= NONNEG:
                r = t.floor(inner)
            elif s <= NONPOS:
                r = t.ceil(inner)
            else:
                r = t.trunc(inner)
        elif x.op == "max":
            args = [self._simp(a, memo) for a in x.args]
            keep = list(args)
            for a in args:
                for b in args:
                    if a is not b and a in keep and b in keep and self.decide(t.le(a, b)) is TRUE:
                        keep.remove(a)
                        break
            r = t.vmax(*keep)
        elif x.op == "ite" and not _has_bv(x.args[0]):
            c = self._simp(x.args[0], memo)
            d = self.decide(c)
            if d is TRUE:
                r = self._simp(x.args[1], memo)
            elif d is FALSE:
                r = self._simp(x.args[2], memo)
            else:
                a = self.add(c).simplify(x.args[1])
                b = self.add(t.lnot(c)).simplify(x.args[2])
                r = t.ite(c, a, b)
        else:
            r = self._rebuild(x, memo)
        memo[x] = r
        return r

    def _simp_binder(self, x, memo):
        n = self._simp(x.args[0], memo)
        if x.op in _EMPTY and not _has_bv(n) and self.sign(n) <= NONPOS:
            return _EMPTY[x.op]
        lam = x.args[1]
        v = t.fresh("v", "int", sign="nonneg")
        body = t.apply_lam(lam, v)
        fs = self.add(t.lt(v, n))
        nb = fs.simplify(body)
        if nb is body and n is x.args[0]:
            return x
        return t.rebuild(x.op, [n, t.abstract(v, nb)] + list(x.args[2:]))

    def _rebuild(self, x, memo):
        if x.op == "poly":
            changed = False
            terms = []
            for m, c in x.args[0]:
                fs = [t.q(c)]
                for a, e in m:
                    na = self._simp(a, memo)
                    changed |= na is not a
                    fs.append(t.ipow(na, e))
                terms.append(fs)
            if not changed:
                return x
            return t.add(*[t.mul(*fs) for fs in terms])
        args = []
        changed = False
        for a in x.args:
            if isinstance(a, T):
                na = self._simp(a, memo)
                changed |= na is not a
                args.append(na)
            else:
                args.append(a)
        return t.rebuild(x.op, args) if changed else x


_EMPTY = {"sum": ZERO, "prod": t.ONE, "forall": TRUE, "exists": FALSE}


def _indices(px):
    out = []
    for m in px:
        for a, _ in m:
            if a.op == "elem":
                for i in a.args[1:]:
                    if i not in out:
                        out.append(i)
    return out[:6]


_BVMEMO = {}


def _has_bv(x):
    r = _BVMEMO.get(x)
    if r is None:
        if x.op == "sym":
            r = x.args[0].startswith("@")
        elif x.op == "lam":
            # bound inside; only free outer variables matter
            h = x.args[0]
            r = any(_free_other(c, h) for c in t.iter_children(x))
        else:
            r = any(_has_bv(c) for c in t.iter_children(x))
        _BVMEMO[x] = r
    return r


def _free_other(x, h):
    return bool(_free_bvs(x) - {h})


_FBV = {}


def _free_bvs(x):
    r = _FBV.get(x)
    if r is None:
        if x.op == "sym":
            r = frozenset((int(x.args[0][1:]),)) if x.args[0].startswith("@") else frozenset()
        elif x.op == "lam":
            r = _free_bvs(x.args[1]) - {x.args[0]}
        else:
            r = frozenset()
            for c in t.iter_children(x):
                r = r | _free_bvs(c)
        _FBV[x] = r
    return r


def _add(a, b):
    out = set()
    for x in a:
        for y in b:
            if x == 0:
                out.add(y)
            elif y == 0 or x == y:
                out.add(x)
            else:
                return ALL
    return frozenset(out)


def _mulsign(a, b):
    return frozenset(x * y for x in a for y in b)


def _powsign(a, e):
    if e % 2 == 0:
        return frozenset(abs(x) for x in a) if e > 0 else PLUS
    if e < 0:
        return a - ZSET if a - ZSET else ALL
    return a
