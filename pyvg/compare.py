"""Deciding equality of extracted terms and data with a specification, under assumptions.

PROVED     normal forms agree, possibly after splitting on gates and using the assumptions;
REFUTED    they differ and a valuation satisfying the assumptions shows the difference;
UNDECIDED  neither.
"""

import time

from . import terms as t
from .facts import Facts, _has_bv
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, q

BINDERS = ("sum", "prod", "amax", "forall", "exists")


class Limit(Exception):
    pass


def norm(x, f):
    """Simplify under the facts, replacing by equality facts."""
    e = f.equalities()
    if e:
        for _ in range(3):
            y = t.subst(x, e)
            if y is x:
                break
            x = y
    return f.simplify(x)


class Prover:
    def __init__(self, seconds=20.0, nodes=4000):
        self.deadline = time.time() + seconds
        self.nodes = nodes

    def tick(self):
        self.nodes -= 1
        if self.nodes < 0 or time.time() > self.deadline:
            raise Limit()

    # ------------------------------------------------------------------------------------------
    def equal(self, a, b, facts):
        try:
            return self.eq(a, b, facts.with_units(), 24)
        except Limit:
            return False
        except RecursionError:
            return False

    def eq(self, a, b, f, depth):
        if a is b:
            return True
        self.tick()
        a1, b1 = norm(a, f), norm(b, f)
        if a1 is b1:
            return True
        if unknown(a1) or unknown(b1):
            return False
        if depth <= 0:
            return False
        if t.is_bool(a1) and t.is_bool(b1):
            return self.iff(a1, b1, f, depth)
        if t.is_num(a1) and t.is_num(b1):
            if self.num_eq(t.sub(a1, b1), f, depth):
                return True
            return self.congruent(a1, b1, f, depth - 1)
        if a1.op == "ite" or b1.op == "ite":
            return self.split(gate_of(a1) or gate_of(b1), [a1, b1], f, depth, lambda x, g: self.eq(
                x[0], x[1], g, depth - 1))
        c = gate_of(a1) or gate_of(b1)
        if c is not None:
            return self.split(c, [a1, b1], f, depth, lambda x, g: self.eq(x[0], x[1], g, depth - 1))
        return self.congruent(a1, b1, f, depth - 1)

    def split(self, c, xs, f, depth, k):
        for lit in (c, t.lnot(c)):
            if f.decide(lit) is FALSE:
                continue
            g = f.add(lit)
            if contradictory(g, lit):
                continue
            if piece_gate(lit, f) is not None and self.absurd(f, [lit], 4):
                continue
            ys = [norm(t.assume(x, lit), g) for x in xs]
            if not k(ys, g):
                return False
        return True

    def num_eq(self, d, f, depth):
        self.tick()
        d = norm(d, f)
        if d is ZERO:
            return True
        s = f.sign(d)
        if s == frozenset((0,)) or not s:
            return True
        if depth <= 0 or unknown(d):
            return False
        c = gate_of(d)
        if c is not None:
            return self.split(c, [d], f, depth, lambda x, g: self.num_eq(x[0], g, depth - 1))
        # equal conditions can be used as rewriting
        d2 = self.rewrite_binders(d, f, depth)
        if d2 is not None and d2 is not d:
            return self.num_eq(d2, f, depth - 1)
        c = piece_gate(d, f)
        if c is not None:
            return self.split(c, [d], f, depth, lambda y, g: self.num_eq(y[0], g, depth - 1))
        return False

    def rewrite_binders(self, d, f, depth):
        """Replace binder terms that are provably equal to another one by that one."""
        bs = t.atoms(d, lambda y: y.op in BINDERS + ("nth", "join") and not _has_bv(y))
        for i in range(len(bs)):
            for j in range(i):
                a, b = bs[i], bs[j]
                if a.op == b.op and self.congruent(a, b, f, depth - 1):
                    return t.subst(d, {a: b})
        es = t.atoms(d, lambda y: y.op in ("elem", "sin", "cos", "exp", "floor", "inv", "sqrt", "arccos",
                                           "pow") and not _has_bv(y))
        for i in range(len(es)):
            for j in range(i):
                a, b = es[i], es[j]
                if a.op == b.op and len(a.args) == len(b.args) and all(
                        x is y or (isinstance(x, T) and isinstance(y, T) and x.op != "arrsym"
                                   and self.small_eq(x, y, f)) for x, y in zip(a.args, b.args)):
                    return t.subst(d, {a: b})
        return None

    def small_eq(self, a, b, f):
        if not (t.is_num(a) and t.is_num(b)):
            return False
        d = f.simplify(t.sub(a, b))
        return d is ZERO or f.sign(d) == frozenset((0,))

    def congruent(self, a, b, f, depth):
        if a is b:
            return True
        if depth <= 0:
            return False
        if a.op == "cat" or b.op == "cat":
            pa = list(a.args) if a.op == "cat" else [a]
            pb = list(b.args) if b.op == "cat" else [b]
            return len(pa) == len(pb) and all(self.eq(x, y, f, depth - 1) for x, y in zip(pa, pb))
        if a.op != b.op or a.op in ("q", "sym", "str", "bool", "poly", "arrsym", "none", "opaque"):
            return False
        if len(a.args) != len(b.args):
            return False
        n = None
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            if x is y:
                if isinstance(x, T):
                    n = x
                continue
            if not (isinstance(x, T) and isinstance(y, T)):
                return False
            if x.op == "lam" and y.op == "lam":
                if n is None or not self.lam_eq(n, x, y, f, depth - 1):
                    return False
            else:
                if x.op == "arrsym" or not self.eq(x, y, f, depth - 1):
                    return False
            n = x
        return True

    def lam_eq(self, n, la, lb, f, depth):
        v = t.fresh("v", "int", sign="nonneg")
        g = f.add(t.lt(v, n))
        return self.body_eq(v, t.apply_lam(la, v), t.apply_lam(lb, v), g, depth)

    def body_eq(self, v, x, y, g, depth):
        m = block_of((x, y), v, g)
        if m is not None:
            # v = a*m + b
            a = t.fresh("a", "int", sign="nonneg")
            if m.op == "q":
                for r in range(int(m.args[0])):
                    if not self.body_case(v, t.add(t.mul(m, a), q(r)), x, y, g, (), depth):
                        return False
                return True
            b = t.fresh("b", "int", sign="nonneg")
            cases = block_bounds(v, m, a, b, g) or [()]
            fl = block_floors((x, y) + tuple(g.items), v, m, a, b)
            x, y = t.subst(x, fl), t.subst(y, fl)
            g = Facts([t.subst(z, fl) for z in g.items])
            return all(self.body_case(v, t.add(t.mul(m, a), b), x, y, g, (t.lt(b, m),) + tuple(e), depth)
                       for e in cases)
        return self.eq(x, y, g, depth)

    def body_case(self, v, e, x, y, g, extra, depth):
        items = [t.subst(z, {v: e}) for z in g.items]
        if FALSE in items:
            return True
        h = Facts(list(items) + list(extra))
        return self.eq(t.subst(x, {v: e}), t.subst(y, {v: e}), h, depth)

    # -- booleans --------------------------------------------------------------------------------
    def iff(self, a, b, f, depth):
        ra, rb = f.decide(a), f.decide(b)
        if ra is not None and rb is not None:
            return ra is rb
        ors = alternatives(f)
        return self.absurd(f, [a, t.lnot(b)] + ors, depth) and self.absurd(f, [b, t.lnot(a)] + ors, depth)

    def entails(self, f, c):
        try:
            if f.decide(c) is TRUE:
                return True
            f = f.with_units()
            return self.absurd(f, [t.lnot(c)] + alternatives(f), 24)
        except (Limit, RecursionError):
            return False

    def absurd(self, f, todo, depth, sk=(), foralls=None):
        """The conjunction of f and todo is unsatisfiable."""
        self.tick()
        if depth <= 0:
            return False
        foralls = list(foralls if foralls is not None else f.foralls)
        todo = list(todo)
        ors, gated = [], []
        sk = list(sk)
        while todo:
            c = todo.pop()
            c = norm(c, f) if c not in f.set or c.op != "or" else c
            if c is FALSE:
                return True
            if c is TRUE:
                continue
            if unknown(c):
                continue
            if c.op == "and":
                todo.extend(c.args)
            elif c.op == "or":
                ors.append(c)
            elif c.op == "exists":
                v = t.fresh("w", "int", sign="nonneg")
                body = t.apply_lam(c.args[1], v)
                m = block_of((body,), v, f)
                if m is not None and m.op != "q" and not sk:
                    g = f.add(t.lt(v, c.args[0]))
                    a, b = t.fresh("a", "int", sign="nonneg"), t.fresh("b", "int", sign="nonneg")
                    cases = block_bounds(v, m, a, b, g)
                    if cases:
                        body = t.subst(t.subst(body, block_floors((body,), v, m, a, b)), {v: t.add(t.mul(m, a), b)})
                        todo.append(body)
                        todo.append(t.lt(b, m))
                        todo.append(t.lor(*[t.land(*e) for e in cases]))
                        continue
                todo.append(t.lt(v, c.args[0]))
                todo.append(t.apply_lam(c.args[1], v))
                for fa in foralls:
                    todo.extend(instances(fa, v, f.add(t.lt(v, c.args[0]))))
                sk.append((v, c.args[0]))
            elif c.op == "forall":
                foralls.append(c)
                f = f.add(c)
                for v, n in sk:
                    todo.extend(instances(c, v, f))
            elif c.op == "ite":
                ors.append(t.lor(t.land(c.args[0], c.args[1]), t.land(t.lnot(c.args[0]), c.args[2])))
            else:
                g = gate_of(c)
                if g is None:
                    g = piece_gate(c, f)
                if g is not None:
                    gated.append((g, c))
                    continue
                f = f.add(c)
        if f.inconsistent():
            return True
        live = []
        for o in ors:
            r = f.decide(o) if o not in f.set else (
                TRUE if any(f.decide(a, 1) is TRUE for a in o.args) else
                FALSE if all(f.decide(a, 1) is FALSE for a in o.args) else None)
            if r is FALSE:
                return True
            if r is not TRUE:
                live.append(o)
        if gated:
            g = gated[0][0]
            rest = [c for _, c in gated] + live
            return all(f.decide(x) is FALSE or self.absurd(f.add(x), rest, depth - 1, sk, foralls)
                       for x in (g, t.lnot(g)))
        if not live:
            return False
        live.sort(key=t.size)
        o = live[0]
        rest = live[1:]
        if o.op != "or":
            return self.absurd(f, [o] + rest, depth - 1, sk, foralls)
        neg = []
        for x in o.args:
            if not self.absurd(f, [x] + neg + rest, depth - 1, sk, foralls):
                return False
            if x.op in ("lt", "le", "eqz", "not"):
                neg.append(t.lnot(x))
        return True


def alternatives(f):
    """Undecided disjunctive facts."""
    return [x for x in f.items if x.op == "or" and not any(f.decide(a, 1) is TRUE for a in x.args)][:6]


def piece_gate(d, f):
    """An undecided case distinction of a maximum, absolute value or sign."""
    for x in t.atoms(d, lambda y: y.op in ("max", "abs", "sgn") and not _has_bv(y)):
        if x.op == "max":
            c = t.le(x.args[0], x.args[1])
        else:
            c = t.lt(x.args[0], ZERO)
            if x.op == "sgn":
                c = t.eq(x.args[0], ZERO) if f.decide(t.eq(x.args[0], ZERO)) is None else c
        if f.decide(c) is None:
            return c
    return None


def instances(fa, v, f):
    n, lam = fa.args
    out = []
    for i in (v, t.add(v, ONE), t.sub(v, ONE)):
        if f.decide(t.lt(i, n), 1) is TRUE and f.decide(t.ge(i, ZERO), 1) is TRUE:
            out.append(t.apply_lam(lam, i))
    return out


def contradictory(g, lit):
    for x in g.items:
        if x is FALSE:
            return True
    return False


def unknown(x):
    """The term contains something not understood."""
    return bool(t.atoms(x, _is_unknown))


def _is_unknown(y):
    return y.op in ("opaque", "loopfn") or (y.op == "sym" and "!" in y.args[0])


def gate_of(x):
    """A condition to split on: the smallest atomic literal of a gate outside binders."""
    best = None
    gs = t.atoms(x, lambda y: y.op == "ite" and not _has_bv(y))
    for g in gs:
        for c in literals(g.args[0]):
            if _has_bv(c):
                continue
            k = (t.size(c), c.id)
            if best is None or k < best[0]:
                best = (k, c)
    return best[1] if best else None


def literals(c):
    if c.op in ("and", "or"):
        out = []
        for a in c.args:
            out.extend(literals(a))
        return out
    if c.op == "not":
        return literals(c.args[0])
    if c.op == "ite":
        return literals(c.args[0])
    g = [y for y in t.atoms(c, lambda y: y.op == "ite" and not _has_bv(y))] if c.op in (
        "lt", "le", "eqz") else []
    if g:
        out = []
        for y in g:
            out.extend(literals(y.args[0]))
        return out
    return [c]


def block_floors(xs, v, m, a, b):
    """floor(v/m + ...) for v = a*m + b."""
    k = t.inv(m)
    fl = {}
    for z in xs:
        for c in t.atoms(z, lambda w: w.op == "floor" and t.depends(w, v)):
            rest = t.sub(c.args[0], t.mul(k, v))
            if not t.depends(rest, v):
                fl[c] = a if rest is ZERO else t.add(a, t.floor(t.add(t.mul(k, b), rest)))
    return fl


def block_bounds(v, m, a, b, g):
    """Cases for the last, incomplete block when v < n is known and n = c*m + r with |r| <= m."""
    pm = t.to_poly(m)
    for s in [k[0][0] for k in pm if len(k) == 1 and k[0][1] == 1 and k[0][0].op == "sym" and pm[k] == 1]:
        m0 = t.sub(m, s)
        if t.depends(m0, s):
            continue
        for d, strict in g.ineqs:
            d = d if strict else t.sub(d, ONE)
            p = t.to_poly(d)
            if p.get(((v, 1),)) != 1:
                continue
            n = t.sub(v, d)
            if not t.is_int(n) or t.depends(n, v):
                continue
            n1, n0 = {}, {}
            ok = True
            for k, c in t.to_poly(n).items():
                e = dict(k)
                w = e.pop(s, 0)
                if w not in (0, 1) or any(t.depends(z, s) for z in e):
                    ok = False
                    break
                (n1 if w else n0)[tuple(sorted(e.items(), key=lambda z: z[0].id))] = c
            if not ok:
                continue
            c = t.from_poly(n1)
            r = t.sub(t.from_poly(n0), t.mul(c, m0))
            sr = g.sign(r)
            if sr <= frozenset((0, -1)) and g.decide(t.ge(t.add(m, r), ZERO)) is TRUE:
                w, c = t.add(m, r), t.sub(c, ONE)
            elif sr <= frozenset((0, 1)) and g.decide(t.le(r, m)) is TRUE:
                w = r
            else:
                continue
            # blocks 0..c-1 are complete, block c has w positions
            return [(t.lt(b, w), t.le(a, c)), (t.ge(b, w), t.lt(a, c))]
    return None


def block_of(xs, v, f):
    """m such that floor(v/m + ...) occurs, v linear with coefficient 1/m."""
    for x in xs:
        for fl in t.atoms(x, lambda y: y.op == "floor" and t.depends(y, v)):
            p = t.to_poly(fl.args[0])
            coef = []
            ok = True
            for m, c in p.items():
                d = dict(m)
                if v in d:
                    if d[v] != 1:
                        ok = False
                    d.pop(v)
                    coef.append(t.from_poly({tuple(sorted(d.items(), key=lambda z: z[0].id)): c}))
                elif any(t.depends(a, v) for a in d):
                    ok = False
            if not ok or not coef:
                continue
            k = t.add(*coef)
            m = t.inv(k) if k is not ZERO else None
            if m is None or not t.is_int(m):
                continue
            if m.op == "q" and not 1 < m.args[0] <= 8:
                continue
            if f.sign(m) != frozenset((1,)):
                continue
            return m
    return None
