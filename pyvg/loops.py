"""Summaries of loops whose number of iterations is not a constant.

The body is analysed once for a generic iteration k.  Every location the body changes is first given
an unknown value; the value after the iteration is then a function of the value before it, and the
recurrences of the supported shapes (invariant, accumulation, product, running maximum, conjunction,
overwrite, element store, append, conditional append) are solved in closed form.  Anything else becomes
an opaque value.
"""

from fractions import Fraction

from . import terms as t
from .arrays import memo_fn
from .facts import Facts
from .interp import Dead, Exit, State, Unsupported, assigned_names
from .terms import FALSE, NONE, ONE, T, TRUE, ZERO, q
from .values import (Unbound, Arr, ArrC, Bound, CSeq, DictC, ESeq, EnvC, FSeq, ISeq, ListC, LoopSeq, ObjC, Opq, Phi,
                     Ref, SeqV, SetC, Tup, concat, gate, merge_seq, SymKey)

UID = [0]


def uid():
    UID[0] += 1
    return "%d" % UID[0]


# ----------------------------------------------------------------------------------------------
# instantiation of values computed in a generic iteration


class Inst:
    """Rewrites values of the generic iteration: terms through `rw`, new cells copied."""

    def __init__(self, I, heap, base_heap, rw):
        self.I, self.heap, self.base, self.rw = I, heap, base_heap, rw
        self.memo = {}

    def fresh_memo(self):
        return Inst(self.I, self.heap, self.base, self.rw)

    def term(self, x):
        return self.rw(x)

    def val(self, v):
        if isinstance(v, T):
            return self.rw(v)
        if isinstance(v, Tup):
            return Tup([self.val(x) for x in v.items], v.ntcls)
        if isinstance(v, Phi):
            return gate(self.rw(v.c), self.val(v.a), self.val(v.b))
        if isinstance(v, SeqV):
            return SeqV(self.seq(v.seq), v.kind)
        if isinstance(v, Bound):
            return Bound(v.func, self.val(v.self))
        if isinstance(v, Ref):
            return self.ref(v)
        return v

    def ref(self, r):
        if r.id in self.base:
            return r
        if r.id in self.memo:
            return self.memo[r.id]
        I = self.I
        c = self.heap.get(r.id)
        if c is None:
            return r
        nr = I.new(c)
        self.memo[r.id] = nr
        I.st.heap[nr.id] = self.cell(c, r)
        return nr

    def arr(self, a):
        rw = self.fresh_memo()
        shape = tuple(self.rw(d) for d in a.shape)
        if a.flat is not None:
            return Arr(shape, a.dtype, None, flat=[self.val(x) for x in a.flat])
        return Arr(shape, a.dtype, memo_fn(lambda ix: rw.fresh_memo().val(a.get(ix))))

    def seq(self, sq):
        if sq.items is not None:
            e = ESeq([self.val(x) for x in sq.items])
            e.lit = getattr(sq, "lit", None)
            return e
        if isinstance(sq, CSeq):
            return concat([self.seq(p) for p in sq.parts])
        if isinstance(sq, ISeq):
            c = self.rw(sq.c)
            if c is TRUE:
                return self.seq(sq.a)
            if c is FALSE:
                return self.seq(sq.b)
            return ISeq(c, self.seq(sq.a), self.seq(sq.b))
        if isinstance(sq, LoopSeq):
            return sq
        rw = self.fresh_memo()
        return FSeq(self.rw(sq.n), lambda i: rw.fresh_memo().val(sq.get(i)))

    def cell(self, c, r=None):
        I = self.I
        if isinstance(c, ArrC):
            if c.view is not None:
                saved = I.st
                I.st = State(self.heap, saved.facts)
                try:
                    a = I.arr(r)
                finally:
                    I.st = saved
                return ArrC(self.arr(a))
            return ArrC(self.arr(c.arr))
        if isinstance(c, ListC):
            return ListC(self.seq(c.seq))
        if isinstance(c, DictC):
            ent = {}
            for k, (b, x) in c.entries.items():
                if isinstance(k, SymKey):
                    w = self.val(k.v)
                    k = I.key(w) if I.key(w) is not None else I.symkey(w)
                    if k is None or k in ent:
                        return DictC({}, True)
                ent[k] = (self.rw(b), self.val(x))
            return DictC(ent, c.opaque, c.default)
        if isinstance(c, ObjC):
            return ObjC(c.cls, {k: self.val(x) for k, x in c.fields.items()})
        if isinstance(c, SetC) and c.pred is None:
            return SetC([(self.rw(b), self.val(x)) for b, x in c.items])
        if isinstance(c, EnvC):
            return EnvC({k: self.val(x) for k, x in c.vars.items()}, c.parent)
        return c


# ----------------------------------------------------------------------------------------------
# one generic iteration


class Run:
    """Result of analysing the body once."""

    def __init__(self):
        self.post = None  # merged continuing state or None
        self.value = None
        self.exits = []  # raise / return / break exits
        self.nb = 0
        self.start_effects = ()


def run_body(I, start, body):
    """Analyse body() from the state start; exits are separated from the continuation."""
    r = Run()
    saved_exits = I.exits
    I.exits = []
    I.st = start
    r.nb = len(start.facts.items)
    heap0 = dict(start.heap)
    eff0 = start.effects
    r.start_effects = eff0
    conts = []
    try:
        try:
            v = body()
            conts.append((I.st, v))
        except Dead:
            pass
        cs = []
        for e in I.exits:
            if e.kind == "continue":
                cs.append((e.st, None))
            else:
                r.exits.append(e)
        conts = cs + conts
    finally:
        I.exits = saved_exits
    if conts:
        if len(conts) == 1:
            r.post, r.value = conts[0]
        else:
            r.post, r.value = I.merge_many(conts, r.nb, heap0, eff0)
    return r


# ----------------------------------------------------------------------------------------------
# changed locations

# a location is ("var", env id, name) | ("cell", id) | ("field", id, name) | ("key", id, key)


def changed_locations(start_heap, post_heap, ids):
    out = set()
    for k in ids:
        x, y = start_heap.get(k), post_heap.get(k)
        if x is y or x is None or y is None:
            continue
        if isinstance(x, EnvC):
            for n, v in y.vars.items():
                if n not in x.vars:
                    out.add(("var", k, n))
                elif not same_value(x.vars[n], v):
                    out.add(("var", k, n))
            for n in x.vars:
                if n not in y.vars:
                    out.add(("var", k, n))
        elif isinstance(x, ObjC) and isinstance(y, ObjC):
            for n, v in y.fields.items():
                if n not in x.fields or not same_value(x.fields[n], v):
                    out.add(("field", k, n))
        elif isinstance(x, DictC) and isinstance(y, DictC):
            if x.opaque or y.opaque or set(x.entries) != set(y.entries):
                out.add(("cell", k))
            else:
                for n in y.entries:
                    if x.entries[n][0] is not y.entries[n][0]:
                        out.add(("cell", k))
                    elif not same_value(x.entries[n][1], y.entries[n][1]):
                        out.add(("key", k, n))
        else:
            out.add(("cell", k))
    return out


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return all(same_value(x, y) for x, y in zip(a.items, b.items))
    return False


def get_loc(heap, loc):
    """Value (or cell for ("cell", id)) of a location; None when absent."""
    c = heap.get(loc[1])
    if loc[0] == "cell":
        return c
    if loc[0] == "var":
        return c.vars.get(loc[2])
    if loc[0] == "field":
        return c.fields.get(loc[2])
    e = c.entries.get(loc[2])
    return None if e is None else e[1]


def set_loc(heap, loc, v):
    c = heap[loc[1]]
    if loc[0] == "cell":
        heap[loc[1]] = v
    elif loc[0] == "var":
        vs = dict(c.vars)
        if v is None:
            vs.pop(loc[2], None)
        else:
            vs[loc[2]] = v
        heap[loc[1]] = EnvC(vs, c.parent)
    elif loc[0] == "field":
        fs = dict(c.fields)
        fs[loc[2]] = v
        heap[loc[1]] = ObjC(c.cls, fs)
    else:
        ent = dict(c.entries)
        ent[loc[2]] = (ent[loc[2]][0], v)
        heap[loc[1]] = DictC(ent, c.opaque, c.default)


# ----------------------------------------------------------------------------------------------
# unknown value at the start of an iteration


class Item:
    """A changed location: symbols standing for its value at the start of iteration k."""

    def __init__(self, loc, v0):
        self.loc, self.v0 = loc, v0
        self.kind = None
        self.uid = uid()
        self.sort = None
        self.sym = None
        self.start = None  # the abstract value or cell placed in the start state
        self.at = None  # function of k -> value / cell, once solved
        self.sub = None  # component items for tuples
        self.dtype = None
        self.grow = False


def classify(I, base, it, hints):
    v = it.v0
    if it.loc[0] == "cell":
        c = v
        if isinstance(c, ArrC) and c.view is None:
            it.kind = "arr"
            it.dtype = hints.get(it.loc, {}).get("dtype", c.arr.dtype)
        elif isinstance(c, ListC):
            it.kind = "list"
        else:
            it.kind = "opaque"
        return
    if v is None:
        it.kind = "temp"
    elif isinstance(v, T):
        it.kind = "scalar"
        h = hints.get(it.loc, {}).get("sort")
        if h:
            it.sort = h
        elif t.is_bool(v):
            it.sort = "bool"
        elif t.is_string(v):
            it.sort = "str"
        elif t.is_num(v):
            it.sort = "int" if t.is_int(v) else "real"
        else:
            it.kind = "other"
    elif isinstance(v, Ref) and isinstance(base.heap.get(v.id), ListC):
        it.kind = "reflist"
    elif isinstance(v, Ref) and isinstance(base.heap.get(v.id), ArrC) and I.arr(v).ndim == 1:
        it.kind = "refarr"
        it.dtype = hints.get(it.loc, {}).get("dtype", I.arr(v).dtype)
    elif isinstance(v, Tup) and all(isinstance(x, T) and (t.is_num(x) or t.is_bool(x))
                                    for x in v.items):
        it.kind = "tuple"
    else:
        it.kind = "other"


def loopfn(u, dt, ix):
    return t.mk("loopfn", u, dt, *ix)


def place(I, st, it):
    """Put the unknown value of an item into the start state."""
    if it.kind == "scalar":
        it.sym = t.sym("loop!%s" % it.uid, it.sort)
        set_loc(st.heap, it.loc, it.sym)
    elif it.kind == "tuple":
        it.syms = [t.sym("loop!%s.%d" % (it.uid, j), "bool" if t.is_bool(x) else
                         "int" if t.is_int(x) and not it.sort else "real") for j, x in
                   enumerate(it.v0.items)]
        set_loc(st.heap, it.loc, Tup(it.syms, it.v0.ntcls))
    elif it.kind == "arr":
        a = it.v0.arr
        u, dt = it.uid, it.dtype
        st.heap[it.loc[1]] = ArrC(plain_arr(a.shape, dt, lambda ix: loopfn(u, dt, ix)))
    elif it.kind == "list":
        it.start = LoopSeq(it.v0.seq, it.uid)
        fix_last(it, it.v0.seq)
        st.heap[it.loc[1]] = ListC(it.start)
    elif it.kind == "reflist":
        it.start = LoopSeq(st.heap[it.v0.id].seq, it.uid)
        fix_last(it, st.heap[it.v0.id].seq)
        saved = I.st
        I.st = st
        set_loc(st.heap, it.loc, I.new(ListC(it.start)))
        I.st = saved
    elif it.kind == "refarr":
        u, dt = it.uid, it.dtype
        it.len = t.sym("len!%s" % u, "int", sign="nonneg")
        saved = I.st
        I.st = st
        set_loc(st.heap, it.loc, I.new(ArrC(Arr((it.len,), dt, lambda ix: loopfn(u, dt, ix)))))
        I.st = saved
    elif it.kind == "temp":
        pass
    elif it.kind == "opaque":
        c = st.heap[it.loc[1]]
        if isinstance(c, DictC):
            st.heap[it.loc[1]] = DictC({}, True)
        elif isinstance(c, ArrC):
            o = I.opq("array changed in a loop")
            st.heap[it.loc[1]] = ArrC(Arr(I.arr(Ref(it.loc[1])).shape, "num", lambda ix: o))
        else:
            st.taint = st.taint + ("object changed in a loop",)
    else:
        set_loc(st.heap, it.loc, I.opq("value changed in a loop"))


def fix_last(it, seq0):
    """Sort of the symbol standing for the last element of a growing list."""
    x = None
    if seq0.items is not None:
        x = seq0.items[-1] if seq0.items else None
    elif seq0.n is not ZERO:
        x = seq0.get(t.sub(seq0.n, ONE))
    it.last0 = x
    if isinstance(x, T) and t.is_num(x):
        it.start.last = t.sym("last!%s" % it.uid, "int" if t.is_int(x) and it.sort != "real"
                              else "real")
    elif isinstance(x, T) and t.is_bool(x):
        it.start.last = t.sym("last!%s" % it.uid, "bool")
    else:
        it.start.last = Opq("last element of a list inside a loop")


def plain_arr(shape, dt, fn):
    return Arr(shape, dt, fn)


# ----------------------------------------------------------------------------------------------
# solving


class Solver:
    def __init__(self, I, k, n, items, post, base):
        self.I, self.k, self.n, self.items, self.post, self.base = I, k, n, items, post, base
        self.scal = {}  # symbol -> function of index term
        self.arrs = {}  # uid -> function (K, ix) -> term
        self.unsolved = set()

    # rewriting of terms of the generic iteration: loop symbols -> closed forms at k
    def close(self, x, own=()):
        """Replace solved loop symbols by their value at the start of iteration k."""
        if not isinstance(x, T):
            return x
        k = self.k

        def f(y):
            if y.op == "sym" and y in self.scal and y not in own:
                return self.scal[y](k)
            if y.op == "loopfn" and y.args[0] in self.arrs:
                return self.arrs[y.args[0]](k, y.args[2:])
            return y

        for _ in range(6):
            z = t.rewrite(x, f)
            if z is x:
                return z
            x = z
        return x

    def loopy(self, x):
        """Loop symbols not solved yet that occur in x."""
        out = set()
        for y in t.atoms(x, lambda z: z.op == "loopfn" or (z.op == "sym" and (
                z.args[0].startswith("loop!") or z.args[0].startswith("len!")
                or z.args[0].startswith("last!")))):
            if y.op == "loopfn":
                if y.args[0] in self.mine:
                    out.add(y.args[0])
            elif y in self.mysyms:
                out.add(y)
        return out

    def prepare(self):
        self.mine = {it.uid for it in self.items}
        self.mysyms = set()
        for it in self.items:
            if it.sym is not None:
                self.mysyms.add(it.sym)
            if it.kind == "tuple":
                self.mysyms.update(it.syms)
            if it.kind in ("list", "reflist"):
                self.mysyms.add(it.start.n)
                if isinstance(it.start.last, T):
                    self.mysyms.add(it.start.last)
            if it.kind == "refarr":
                self.mysyms.add(it.len)

    def solve(self):
        self.prepare()
        todo = list(self.items)
        for _ in range(len(todo) + 2):
            rest = []
            for it in todo:
                if not self.try_item(it):
                    rest.append(it)
            if len(rest) == len(todo):
                break
            todo = rest
        for it in todo:
            self.give_up(it)
        return todo

    def give_up(self, it):
        u = it.uid
        if it.kind == "scalar":
            sort = {"str": "str"}.get(it.sort, it.sort)
            self.scal[it.sym] = lambda K: t.ite(t.eq(K, ZERO), it.v0, t.mk(
                "opaque", "loop-%s-%d" % (u, K.id), sort))
            it.at = self.scal[it.sym]
        elif it.kind == "arr":
            dt = it.dtype
            self.arrs[u] = lambda K, ix: t.mk("opaque", "loopfn-%s-%s" % (u, [x.id for x in (K,) + tuple(
                ix)]), "real" if dt in ("float", "num", "complex") else dt)
        elif it.kind in ("list", "reflist"):
            self.scal.setdefault(it.start.n, lambda K: t.mk("opaque", "len-%s-%d" % (u, K.id), "int"))
            if isinstance(it.start.last, T):
                self.scal.setdefault(it.start.last, lambda K: t.mk(
                    "opaque", "last-%s-%d" % (u, K.id), "real"))
        elif it.kind == "refarr":
            self.scal.setdefault(it.len, lambda K: t.mk("opaque", "len-%s-%d" % (u, K.id), "int"))
            self.arrs[u] = lambda K, ix: t.mk("opaque", "loopfn-%s-%s" % (
                u, [x.id for x in (K,) + tuple(ix)]), "real")
        self.unsolved.add(it)

    def post_value(self, it):
        return get_loc(self.post.heap, it.loc)

    def try_item(self, it):
        if it.kind == "scalar":
            p = self.I.res(self.post_value(it))
            if not isinstance(p, T):
                return False
            p = self.post.facts.simplify(p)
            f = self.solve_scalar(it.sym, it.v0, p)
            if f is None:
                return False
            self.scal[it.sym] = f
            it.at = f
            return True
        if it.kind == "tuple":
            p = self.I.res(self.post_value(it))
            if not isinstance(p, Tup) or len(p.items) != len(it.syms):
                return False
            ok = True
            for s, v0, x in zip(it.syms, it.v0.items, p.items):
                if s in self.scal:
                    continue
                f = self.solve_scalar(s, v0, x) if isinstance(x, T) else None
                if f is None:
                    ok = False
                else:
                    self.scal[s] = f
            if ok:
                it.at = lambda K: Tup([self.scal[s](K) for s in it.syms], it.v0.ntcls)
            return ok
        if it.kind == "arr":
            return self.solve_arr(it)
        if it.kind in ("list", "reflist"):
            return self.solve_list(it)
        if it.kind == "refarr":
            return self.solve_refarr(it)
        if it.kind in ("temp", "other"):
            it.at = "temp"
            return True
        return False

    def solve_scalar(self, s, v0, p):
        k = self.k
        p = self.close(p, own=(s,))
        if p is s:
            return lambda K: v0
        others = self.loopy(p) - {s}
        if others:
            return None
        if not t.depends(p, s):
            def indep(K):
                return t.ite(t.eq(K, ZERO), v0, t.subst(p, {k: t.sub(K, ONE)}))

            if not t.depends(p, k) and p is v0:
                return lambda K: v0
            return indep
        if t.is_bool(s):
            d = bool_step(p, s)
            if d is None:
                return None
            kind, c = d
            lam = t.abstract(k, c)
            if kind == "and":
                return lambda K: t.land(v0, t.forall(K, lam))
            return lambda K: t.lor(v0, t.exists(K, lam))
        if t.is_string(s):
            if p.op == "cat" and p.args[0] is s and not any(t.depends(a, s) for a in p.args[1:]):
                lam = t.abstract(k, t.cat(*p.args[1:]))
                return lambda K: t.cat(v0, t.mk("join", t.string(""), K, lam))
            return None
        if not t.is_num(p):
            return None
        d = delta(p, s)
        if d is not None and not t.depends(d, s):
            lam = t.abstract(k, d)
            return lambda K: t.add(v0, t.vsum(K, lam))
        r = ratio(p, s)
        if r is not None and not t.depends(r, s):
            if not t.depends(r, k):
                return lambda K: t.mul(v0, t.power(r, K))
            lam = t.abstract(k, r)
            return lambda K: t.mul(v0, t.vprod(K, lam))
        m = max_step(p, s)
        if m is not None:
            sg, d = m
            lam = t.abstract(k, d if sg > 0 else t.neg(d))

            def mx(K):
                w = v0 if sg > 0 else t.neg(v0)
                x = t.ite(t.le(K, ZERO), w, t.vmax(w, t.amax(K, lam)))
                return x if sg > 0 else t.neg(x)

            return mx
        return None

    # -- arrays ----------------------------------------------------------------------------------
    def solve_arr(self, it):
        k, u = self.k, it.uid
        pc = self.post_value(it)
        if not isinstance(pc, ArrC) or pc.view is not None:
            return False
        pa, a0 = pc.arr, it.v0.arr
        if pa.ndim != a0.ndim:
            return False
        ix = tuple(t.fresh("x", "int", sign="nonneg") for _ in a0.shape)
        p = pa.get(ix)
        if not isinstance(p, T):
            return False
        facts = self.post.facts.add(*[t.lt(i, d) for i, d in zip(ix, a0.shape)])
        p = facts.simplify(p)
        own = loopfn(u, it.dtype, ix)
        p = self.close(p)
        others = self.loopy(p) - {u}
        if others:
            return False

        def base(jx):
            v = a0.get(tuple(jx))
            return v if isinstance(v, T) else t.mk("opaque", "base-%s-%s" % (u, [x.id for x in jx]),
                                                   "real")

        if p is own:
            self.arrs[u] = lambda K, jx: base(jx)
            return True
        mine = [y for y in t.atoms(p, lambda z: z.op == "loopfn" and z.args[0] == u)]
        if not mine:
            def indep(K, jx):
                return t.ite(t.eq(K, ZERO), base(jx), t.subst(p, {
                    **dict(zip(ix, jx)), k: t.sub(K, ONE)}))

            self.arrs[u] = indep
            return True
        if all(y is own for y in mine) and t.is_num(p):
            d = delta(p, own)
            if d is not None and not t.depends(d, own):
                def acc(K, jx):
                    return t.add(base(jx), t.vsum(K, t.abstract(k, t.subst(d, dict(zip(ix, jx))))))

                self.arrs[u] = acc
                return True
        return self.solve_scatter(it, p, own, ix, base)

    def solve_scatter(self, it, p, own, ix, base):
        """Stores at positions that determine the iteration."""
        k, u = self.k, it.uid
        paths = ite_paths(p)
        groups = {}
        for conds, leaf in paths:
            if leaf is own:
                continue
            ks = None
            for c in conds:
                ks = solve_eq(c, ix, k)
                if ks is not None:
                    break
            if ks is None:
                ks = floor_group(conds, ix, k)
            if ks is None:
                return False
            groups.setdefault(ks, []).append((conds, leaf))
        order = list(groups)
        # later iterations first
        for i in range(len(order)):
            for j in range(i + 1, len(order)):
                d = t.sub(order[i][0], order[j][0])
                if d.op != "q":
                    return False
        first = order[0][0]
        order.sort(key=lambda g: -t.sub(g[0], first).args[0])
        chain_step = None
        for g in order:
            for conds, leaf in groups[g]:
                for y in t.atoms(leaf, lambda z: z.op == "loopfn" and z.args[0] == u):
                    y2 = t.subst(y, {k: g[0]})
                    if y2 is own:
                        continue
                    if len(order) == 1 and len(ix) == 1 and t.sub(ix[0], y2.args[2]) is ONE:
                        chain_step = y
                        continue
                    return False
                for c in conds:
                    if t.atoms(c, lambda z: z.op == "loopfn" and z.args[0] == u):
                        return False
        if chain_step is not None:
            return self.solve_chain(it, groups, order[0], ix, base, chain_step)

        def at(K, jx):
            m = dict(zip(ix, jx))
            r = base(jx)
            for g in reversed(order):
                kk = t.subst(g[0], m)
                valid = t.land(t.ge(kk, ZERO), t.lt(kk, K), t.subst(g[1], m))
                for conds, leaf in groups[g]:
                    c = t.land(valid, *[t.subst(x, {**m, k: kk}) for x in conds])
                    lf = t.subst(t.subst(leaf, {k: g[0]}), {own: t.sym("@own", "real")})
                    lf = t.subst(lf, m)
                    lf = t.subst(lf, {t.sym("@own", "real"): r})
                    r = t.ite(c, lf, r)
            return r

        self.arrs[u] = at
        return True

    def solve_chain(self, it, groups, g, ix, base, y):
        """a[k + c] = a[k + c - 1] + d(k)."""
        k, u = self.k, it.uid
        if len(groups[g]) != 1:
            return False
        conds, leaf = groups[g][0]
        d = delta(leaf, y)
        if d is None or t.atoms(d, lambda z: z.op == "loopfn" and z.args[0] == u):
            return False
        # k* = x - c
        c = t.sub(ix[0], g[0])
        if c.op != "q" or len(conds) != 1:
            return False
        lam = t.abstract(k, d)

        def at(K, jx):
            j = t.sub(jx[0], c)
            return t.ite(t.land(t.ge(j, ZERO), t.lt(j, K)), t.add(base((t.sub(c, ONE),)), t.vsum(
                t.add(j, ONE), lam)), base(jx))

        self.arrs[u] = at
        return True

    # -- growing arrays ----------------------------------------------------------------------------
    def solve_refarr(self, it):
        I, k, u = self.I, self.k, it.uid
        p = I.res(self.post_value(it))
        if not isinstance(p, Ref) or not isinstance(self.post.heap.get(p.id), ArrC):
            return False
        saved = I.st
        I.st = self.post
        try:
            pa = I.arr(p)
            a0 = self.arr_in(self.base, it.v0)
        finally:
            I.st = saved
        if pa.ndim != 1:
            return False
        i = t.fresh("x", "int", sign="nonneg")
        # independent of the previous value: an ordinary temporary
        e = pa.get((i,))
        if isinstance(e, T):
            e1 = self.close(e)
            n1 = self.close(pa.shape[0])
            if not (self.loopy(e1) | self.loopy(n1)):
                if it.len in t.atoms(e1, lambda z: z is it.len):
                    return False
                it.at = "temp"
                self.scal.setdefault(it.len, lambda K: t.mk("opaque", "len-%s" % u, "int"))
                self.arrs.setdefault(u, lambda K, jx: t.mk(
                    "opaque", "loopfn-%s-%s" % (u, [x.id for x in (K,) + tuple(jx)]), "real"))
                return True
        m = t.sub(self.close(pa.shape[0], own=(it.len,)), it.len)
        if m.op == "q" and m is ZERO:
            # same length: elementwise update by rebinding
            f = self.post.facts.add(t.lt(i, it.len))
            e = f.simplify(pa.get((i,))) if isinstance(pa.get((i,)), T) else None
            if e is None:
                return False
            own = loopfn(u, it.dtype, (i,))
            e = self.close(e)
            if self.loopy(e) - {u, it.len}:
                return False
            mine = t.atoms(e, lambda z: z.op == "loopfn" and z.args[0] == u)
            n0 = a0.shape[0]
            if not all(y is own for y in mine):
                return False
            d = delta(e, own)
            if d is None or t.depends(d, own):
                return False

            def acc(K, jx):
                b = a0.get(jx)
                dd = t.subst(d, {i: jx[0], it.len: n0})
                return t.add(b, t.vsum(K, t.abstract(k, dd)))

            self.scal[it.len] = lambda K: n0
            self.arrs[u] = acc
            it.at = lambda K: Arr((n0,), it.dtype, memo_fn(lambda jx: acc(K, jx)))
            return True
        if m.op != "q" or m.args[0] < 0 or m.args[0] > 16:
            return False
        c = int(m.args[0])
        f = self.post.facts.add(t.lt(i, it.len))
        e = pa.get((i,))
        if not isinstance(e, T) or self.close(f.simplify(e)) is not loopfn(u, it.dtype, (i,)):
            return False
        news = []
        for j in range(c):
            x = pa.get((t.add(it.len, q(j)),))
            if not isinstance(x, T):
                return False
            x = self.close(self.post.facts.simplify(x), own=(it.len,))
            news.append(x)
        n0 = a0.shape[0]
        self.scal[it.len] = lambda K: t.add(n0, t.mul(q(c), K))
        # reading the last element: a prefix-sum chain
        last = loopfn(u, it.dtype, (t.sub(it.len, ONE),))
        news = [self.close(x, own=()) for x in news]
        last_c = loopfn(u, it.dtype, (t.sub(self.scal[it.len](k), ONE),))
        if any(self.loopy(x) - {u} for x in news):
            del self.scal[it.len]
            return False
        mine = set()
        for x in news:
            mine.update(t.atoms(x, lambda z: z.op == "loopfn" and z.args[0] == u))
        if mine:
            if c != 1 or not all(y is last_c for y in mine):
                del self.scal[it.len]
                return False
            d = delta(news[0], last_c)
            if d is None or t.depends(d, last_c):
                del self.scal[it.len]
                return False
            l0 = a0.get((t.sub(n0, ONE),))
            lam = t.abstract(k, d)
            news = None

            def new_at(j):
                return t.add(l0, t.vsum(t.add(j, ONE), lam))
        else:
            nn = list(news)

            def new_at(j):
                if c == 1:
                    return t.subst(nn[0], {k: j})
                r = t.floordiv(j, q(c))
                off = t.sub(j, t.mul(q(c), r))
                v = t.subst(nn[-1], {k: r})
                for jj in range(c - 2, -1, -1):
                    v = t.ite(t.eq(off, q(jj)), t.subst(nn[jj], {k: r}), v)
                return v

        def elem(K, jx):
            j = t.sub(jx[0], n0)
            if n0 is ZERO:
                return new_at(jx[0])
            return t.ite(t.lt(jx[0], n0), a0.get(jx), new_at(j))

        self.arrs[u] = elem
        dt = it.dtype
        it.at = lambda K: Arr((t.add(n0, t.mul(q(c), K)),), dt, memo_fn(lambda jx: elem(K, jx)))
        return True

    def arr_in(self, st, r):
        saved = self.I.st
        self.I.st = st
        try:
            return self.I.arr(r)
        finally:
            self.I.st = saved

    # -- lists -------------------------------------------------------------------------------------
    def solve_list(self, it):
        I, k = self.I, self.k
        if it.kind == "list":
            pc = self.post_value(it)
        else:
            p = I.res(self.post_value(it))
            if not isinstance(p, Ref):
                return False
            pc = self.post.heap.get(p.id)
        if not isinstance(pc, ListC):
            return False
        L = it.start
        base_seq = it.v0.seq if it.kind == "list" else self.base.heap[it.v0.id].seq
        form = list_form(pc.seq, L, I, self.post)
        if form is None:
            if it.kind == "reflist" and not seq_mentions(pc.seq, L):
                it.at = "temp"
                self.scal.setdefault(L.n, lambda K: t.mk("opaque", "len-%s" % it.uid, "int"))
                if isinstance(L.last, T):
                    self.scal.setdefault(L.last, lambda K: t.mk("opaque", "last-%s" % it.uid, "real"))
                return True
            return False
        cond, new = form  # new: sequence appended in iteration k when cond holds
        n0 = base_seq.n
        cond = self.close(cond)
        newn = self.close(new.n)
        if self.loopy(cond) or self.loopy(newn):
            return False
        if cond is TRUE and t.depends(newn, k):
            return False
        if cond is not TRUE and newn is not ONE:
            return False
        if cond is TRUE:
            self.scal[L.n] = lambda K: t.add(n0, t.mul(newn, K))
        else:
            clam = t.abstract(k, t.as_num(cond))
            self.scal[L.n] = lambda K: t.add(n0, t.vsum(K, clam))
        if isinstance(L.last, T):
            x = new.get(t.sub(new.n, ONE)) if new.n is not ZERO else None
            if isinstance(x, T):
                pl = t.ite(cond, x, L.last)
                last0 = it.last0 if isinstance(it.last0, T) else t.mk("opaque", "no-last", "real")
                f = self.solve_scalar(L.last, last0, pl)
                if f is None:
                    if L.last in self.loopy(self.close(x, own=(L.last,))):
                        return False
                    self.scal[L.last] = lambda K: t.mk("opaque", "last-%s" % it.uid, "real")
                else:
                    self.scal[L.last] = f
            else:
                self.scal[L.last] = lambda K: t.mk("opaque", "last-%s" % it.uid, "real")
        heap, bheap = self.post.heap, self.base.heap

        def inst(kk):
            return Inst(I, heap, bheap, lambda x: t.subst(self.close(x), {k: kk}))

        if cond is not TRUE:
            blam = t.abstract(k, cond)

            def at(K):
                cnt = t.vsum(K, t.abstract(k, t.as_num(cond)))
                s = FSeq(cnt, lambda j: inst(t.nth(K, blam, j)).val(new.get(ZERO)))
                s.filt = (K, blam)
                return concat([base_seq, s])
        elif newn is ONE:
            def at(K):
                return concat([base_seq, FSeq(K, lambda j: inst(j).val(new.get(ZERO)))])
        else:
            def at(K):
                def get(j):
                    r = t.floordiv(j, newn)
                    off = t.sub(j, t.mul(newn, r))
                    return inst(r).val(new.get(off))

                return concat([base_seq, FSeq(t.mul(newn, K), get)])
        it.at = at
        return True


def seq_mentions(sq, L):
    if sq is L:
        return True
    if isinstance(sq, CSeq):
        return any(seq_mentions(p, L) for p in sq.parts)
    if isinstance(sq, ISeq):
        return seq_mentions(sq.a, L) or seq_mentions(sq.b, L)
    if sq.items is not None:
        return False
    x = sq.get(t.fresh("i", "int", sign="nonneg"))
    if isinstance(x, T):
        return any(y.args[0].endswith("!" + L.uid) for y in t.atoms(x, lambda z: z.op == "sym"))
    return not isinstance(x, T)


def list_form(sq, L, I, post):
    """(cond, appended sequence) when sq is L with elements appended."""
    if sq is L:
        return FALSE, ESeq([])
    if isinstance(sq, CSeq) and sq.parts and sq.parts[0] is L:
        rest = concat(sq.parts[1:])
        return TRUE, rest
    if isinstance(sq, CSeq) and sq.parts and isinstance(sq.parts[0], ISeq):
        f = list_form(sq.parts[0], L, I, post)
        if f is None or f[0] is not TRUE:
            return None
        return TRUE, concat([f[1]] + sq.parts[1:])
    if isinstance(sq, ISeq):
        d = post.facts.decide(sq.c)
        if d is TRUE:
            return list_form(sq.a, L, I, post)
        if d is FALSE:
            return list_form(sq.b, L, I, post)
        a, b = list_form(sq.a, L, I, post), list_form(sq.b, L, I, post)
        if a is None or b is None:
            return None
        if a[0] is TRUE and b[0] is TRUE:
            if a[1].n is b[1].n:
                return TRUE, merge_seq(sq.c, a[1], b[1])
            return None
        if b[0] is FALSE:
            return t.land(sq.c, a[0]), a[1]
        if a[0] is FALSE:
            return t.land(t.lnot(sq.c), b[0]), b[1]
        # both conditional: same number of elements
        if a[1].n is b[1].n:
            c = t.ite(sq.c, a[0], b[0])
            return c, merge_seq(sq.c, a[1], b[1])
    return None


def ite_paths(p, conds=(), out=None):
    if out is None:
        out = []
    if p.op == "ite":
        ite_paths(p.args[1], conds + conj(p.args[0]), out)
        ite_paths(p.args[2], conds + conj(t.lnot(p.args[0])), out)
    else:
        out.append((conds, p))
    return out


def conj(c):
    return tuple(c.args) if c.op == "and" else (c,)


def solve_eq(c, ix, k):
    """(k*, integrality) from an equality between an index and a linear function of k."""
    if c.op != "eqz":
        return None
    p = t.to_poly(c.args[0])
    a = None
    for m, cf in p.items():
        if any(x is k or t.depends(x, k) for x, _ in m):
            if m == ((k, 1),):
                a = cf
            else:
                return None
    if a is None:
        return None
    ok = False
    for m, cf in p.items():
        if any(x in ix for x, _ in m):
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in ix:
                ok = True
    if not ok:
        return None
    rest = t.from_poly({m: cf for m, cf in p.items() if m != ((k, 1),)})
    ks = t.mul(q(Fraction(-1) / a), rest)
    integ = TRUE
    if not t.is_int(ks):
        integ = t.eq(t.floor(ks), ks)
    return ks, integ


def floor_group(conds, ix, k):
    """Stores of a slice [w*k + b, w*k + b + w): k* = floor((x - b)/w)."""
    lows, highs = [], []
    for c in conds:
        if c.op not in ("le", "lt"):
            continue
        p = t.to_poly(c.args[0])
        if ((k, 1),) not in p or any(t.depends(x, k) for m in p if m != ((k, 1),) for x, _ in m):
            # width may be symbolic: coefficient of k is another term
            pass
        hit = [x for x in ix if ((x, 1),) in p]
        if len(hit) != 1:
            continue
        (lows if p[((hit[0], 1),)] < 0 else highs).append((c, hit[0], p))
    for c1, x, p1 in lows:
        for c2, y, p2 in highs:
            if x is not y:
                continue
            # lower: w*k + b - x <= 0 ; upper: x - w*k - b - w < 0 (or <= -1)
            lo = t.add(c1.args[0], x)
            if c1.op == "lt":
                lo = t.add(lo, ONE)
            hi = t.sub(x, c2.args[0])
            if c2.op == "le":
                hi = t.add(hi, ONE)
            w1 = t.sub(t.subst(lo, {k: t.add(k, ONE)}), lo)
            if t.depends(w1, k) or t.sub(hi, lo) is not w1:
                continue
            b = t.subst(lo, {k: ZERO})
            ks = t.floor(t.div(t.sub(x, b), w1))
            return ks, TRUE
    return None


def delta(p, s):
    """p - s with the subtraction pushed into gates; None when p is not s + something."""
    if p is s:
        return ZERO
    if p.op == "ite":
        if t.depends(p.args[0], s):
            return None
        a, b = delta(p.args[1], s), delta(p.args[2], s)
        if a is None or b is None:
            return None
        return t.ite(p.args[0], a, b)
    if p.op == "poly":
        po = t.to_poly(p)
        if po.get(((s, 1),)) != 1:
            return None
        d = t.sub(p, s)
        return None if t.depends(d, s) else d
    return None


def ratio(p, s):
    if p is s:
        return ONE
    if p.op == "ite":
        if t.depends(p.args[0], s):
            return None
        a, b = ratio(p.args[1], s), ratio(p.args[2], s)
        if a is None or b is None:
            return None
        return t.ite(p.args[0], a, b)
    if p.op == "poly":
        po = t.to_poly(p)
        out = {}
        for m, c in po.items():
            if not any(x is s and e == 1 for x, e in m):
                return None
            out[tuple((x, e) for x, e in m if x is not s)] = c
        r = t.from_poly(out)
        return None if t.depends(r, s) else r
    return None


def max_step(p, s):
    """(+1, d) when p = max(s, d); (-1, d) when p = min(s, d)."""
    if p.op == "max":
        if s in p.args:
            rest = [a for a in p.args if a is not s]
            if not any(t.depends(a, s) for a in rest):
                return 1, t.vmax(*rest) if len(rest) > 1 else rest[0]
    n = t.neg(p)
    ns = t.neg(s)
    if n.op == "max" and ns in n.args:
        rest = [a for a in n.args if a is not ns]
        if not any(t.depends(a, s) for a in rest):
            return -1, t.neg(t.vmax(*rest) if len(rest) > 1 else rest[0])
    if p.op == "ite":
        c, a, b = p.args
        for x, y, cc in ((a, b, c), (b, a, t.lnot(c))):
            if y is s and not t.depends(x, s):
                # x taken when cc holds
                if cc in (t.gt(x, s), t.ge(x, s)):
                    return 1, x
                if cc in (t.lt(x, s), t.le(x, s)):
                    return -1, x
    return None


def bool_step(p, s):
    if p.op == "and" and s in p.args:
        c = t.land(*[a for a in p.args if a is not s])
        return None if t.depends(c, s) else ("and", c)
    if p.op == "or" and s in p.args:
        c = t.lor(*[a for a in p.args if a is not s])
        return None if t.depends(c, s) else ("or", c)
    return None


# ----------------------------------------------------------------------------------------------
# the summary


class Summary:
    def __init__(self, I, n, k, body, base):
        self.I, self.n, self.k, self.body, self.base = I, n, k, body, base
        self.items = []
        self.solver = None
        self.run = None

    def analyse(self):
        I, k, n = self.I, self.k, self.n
        base = self.base
        ids = list(base.heap)
        hints = {}
        locs = set()
        run = None
        for rnd in range(12):
            items = []
            start = base.fork(t.lt(k, n))
            for loc in sorted(locs, key=repr):
                it = Item(loc, get_loc(base.heap, loc))
                saved = I.st
                I.st = base
                classify(I, base, it, hints)
                I.st = saved
                items.append(it)
            for it in items:
                h = hints.get(it.loc, {})
                if h.get("lastreal"):
                    it.sort = "real" if it.kind in ("list", "reflist") else it.sort
                place(I, start, it)
            start0 = dict(start.heap)
            I.probing += 1
            try:
                run = run_body(I, start, self.body)
            finally:
                I.probing -= 1
            posts = ([run.post] if run.post is not None else []) + [
                e.st for e in run.exits if e.kind == "break"]
            new = set()
            for p in posts:
                new |= changed_locations(start0, p.heap, ids)
            dirty = False
            extra = new - locs
            if extra:
                locs |= extra
                dirty = True
            if run.post is not None:
                for it in items:
                    dirty |= self.retype(it, run.post, hints)
            if not dirty:
                break
        else:
            raise Unsupported("loop does not stabilise")
        self.items = items
        return run

    def retype(self, it, post, hints):
        """Widen the sort of an unknown value when the body contradicts it."""
        v = get_loc(post.heap, it.loc)
        h = hints.setdefault(it.loc, {})
        if it.kind == "scalar":
            v = self.I.res(v)
            if isinstance(v, T) and it.sort == "int" and t.is_num(v) and not t.is_int(v):
                h["sort"] = "real"
                return True
        elif it.kind == "arr" and isinstance(v, ArrC) and v.view is None:
            if v.arr.dtype != it.dtype:
                h["dtype"] = v.arr.dtype
                return it.dtype != h["dtype"]
        elif it.kind == "refarr" and isinstance(v, Ref) and isinstance(post.heap.get(v.id), ArrC):
            c = post.heap[v.id]
            if c.view is None and c.arr.dtype != it.dtype:
                h["dtype"] = c.arr.dtype
                return True
        elif it.kind in ("list", "reflist") and isinstance(it.start.last, T) and t.is_int(it.start.last):
            if not h.get("lastreal"):
                c = v if it.kind == "list" else (post.heap.get(v.id) if isinstance(v, Ref) else None)
                if isinstance(c, ListC) and isinstance(c.seq, CSeq) and c.seq.parts[-1].items:
                    x = c.seq.parts[-1].items[-1]
                    if isinstance(x, T) and t.is_num(x) and not t.is_int(x):
                        h["lastreal"] = True
                        return True
        return False

    def rerun_closed(self):
        """Second pass with the closed forms of the solved scalars in place of unknowns."""
        I, k, n = self.I, self.k, self.n
        start = self.base.fork(t.lt(k, n))
        sv = self.solver
        for it in self.items:
            if it.kind == "scalar" and it not in sv.unsolved:
                set_loc(start.heap, it.loc, sv.scal[it.sym](k))
            elif it.kind == "tuple" and it not in sv.unsolved:
                set_loc(start.heap, it.loc, it.at(k))
            elif it.kind == "arr" and it not in sv.unsolved:
                u, dt, a = it.uid, it.dtype, it.v0.arr
                start.heap[it.loc[1]] = ArrC(Arr(a.shape, dt, memo_fn(
                    lambda ix, u=u: sv.arrs[u](k, ix))))
            else:
                place(I, start, it)
                if it.kind in ("list", "reflist") and it not in sv.unsolved:
                    # symbols of the second pass are the same as those of the first
                    pass
        return run_body(I, start, self.body)


def summarise(I, n, k, body, node, src=None):
    """Replace I.st by the state after n iterations of body (k is the iteration symbol).

    Returns (state after normal completion or None, list of break states)."""
    base = I.st
    s = Summary(I, n, k, body, base)
    run = s.analyse()
    I.loops_summarised += 1
    if src is not None and any(loc[0] == "cell" and loc[1] == src.id for loc in
                               [it.loc for it in s.items]):
        I.st = base
        raise Unsupported("container changed while it is iterated")
    if run.post is None and not any(e.kind == "break" for e in run.exits):
        # every iteration leaves through an exit: only zero iterations continue
        finish_exits(I, s, base, run, n, k, None)
        I.st = base.fork(t.le(n, ZERO))
        if I.st.facts.inconsistent():
            raise Dead()
        return I.st, []
    post = run.post
    sv = None
    if post is not None:
        sv = Solver(I, k, n, s.items, post, base)
        s.solver = sv
        sv.solve()
        # second pass: conditions inside the body are decided with the closed forms
        if any(it.kind in ("scalar", "tuple", "arr") and it not in sv.unsolved for it in s.items):
            run2 = s.rerun_closed()
            if run2.post is not None:
                run = run2
                post = run.post
                sv2 = Solver(I, k, n, [it for it in s.items], post, base)
                resolve_second(sv, sv2, s.items)
                sv = sv2
                s.solver = sv
    else:
        sv = Solver(I, k, n, s.items, base, base)
        sv.prepare()
        for it in s.items:
            if it.kind == "scalar":
                sv.scal[it.sym] = lambda K, it=it: it.v0
            elif it.kind == "arr":
                sv.arrs[it.uid] = lambda K, ix, it=it: it.v0.arr.get(ix)
            elif it.kind in ("list", "reflist"):
                bs = it.v0.seq if it.kind == "list" else base.heap[it.v0.id].seq
                sv.scal[it.start.n] = lambda K, bs=bs: bs.n
        s.solver = sv
    I.st = base
    return finish(I, s, base, run, n, k, sv)


def resolve_second(sv, sv2, items):
    sv2.prepare()
    for it in items:
        if it.kind == "scalar" and it not in sv.unsolved:
            sv2.scal[it.sym] = sv.scal[it.sym]
        elif it.kind == "tuple" and it not in sv.unsolved:
            for x in it.syms:
                sv2.scal[x] = sv.scal[x]
        elif it.kind == "arr" and it not in sv.unsolved:
            sv2.arrs[it.uid] = sv.arrs[it.uid]
    todo = [it for it in items if not (it.kind in ("scalar", "tuple", "arr") and it not in sv.unsolved)]
    for it in todo:
        if it.kind not in ("scalar",):
            it.at = None
    for _ in range(len(todo) + 2):
        rest = [it for it in todo if not sv2.try_item(it)]
        if len(rest) == len(todo):
            break
        todo = rest
    for it in todo:
        sv2.give_up(it)


def exit_cond(e, nb, sv):
    c = t.land(*e.st.facts.items[nb:])
    return sv.close(c) if sv is not None else c


def finish_exits(I, s, base, run, n, k, sv):
    """Record raise and return exits of the loop; returns (event lambda, break exits)."""
    events = []
    for e in run.exits:
        events.append((e, exit_cond(e, run.nb, sv)))
    if not events:
        return None, []
    conds = [c for _, c in events]
    any_c = t.lor(*conds)
    lam_any = t.abstract(k, any_c)
    classes = set()
    for e, _ in events:
        if e.kind == "raise" and isinstance(e.value, Ref) and isinstance(e.st.heap.get(e.value.id), ObjC):
            classes.add(e.st.heap[e.value.id].cls.name)
        else:
            classes.add(e.kind + str(id(e)))
    uniform = len(classes) == 1
    kstar = t.nth(n, lam_any, ZERO)
    breaks = []
    for e, c in events:
        if uniform or len(events) == 1:
            occurs = t.exists(n, t.abstract(k, c))
        else:
            occurs = t.land(t.exists(n, lam_any), t.subst(c, {k: kstar}))
        if e.kind == "break":
            breaks.append((e, occurs))
            continue
        if base.facts.decide(occurs) is FALSE:
            continue
        heap = dict(base.heap)
        for key, cell in e.st.heap.items():
            if key not in heap:
                heap[key] = cell
        st = State(heap, base.facts.add(occurs), base.effects, e.st.taint)
        suffix = e.st.effects[len(run.start_effects):]
        if suffix:
            st.effects = base.effects + (("loop", n, k, suffix),)
        val = e.value
        if e.kind == "return":
            saved = I.st
            I.st = st
            val = Inst(I, e.st.heap, base.heap, lambda x: t.subst(
                sv.close(x) if sv is not None else x, {k: kstar})).val(e.value)
            apply_items(I, s, st, base, e.st, sv, kstar)
            I.st = saved
        I.exits.append(Exit(e.kind, st, val, e.site))
    return (lam_any, kstar), breaks


def apply_items(I, s, st, base, post, sv, kk):
    """Contents of changed locations in the middle of iteration kk."""
    for it in s.items:
        v = get_loc(post.heap, it.loc)
        inst = Inst(I, post.heap, base.heap, lambda x: t.subst(sv.close(x) if sv else x, {s.k: kk}))
        if it.kind in ("list", "reflist") and it not in getattr(sv, "unsolved", ()):
            c = v if it.kind == "list" else (post.heap.get(v.id) if isinstance(v, Ref) else None)
            if isinstance(c, ListC):
                form = list_form(c.seq, it.start, I, post)
                if callable(it.at) and form is not None and form[0] in (TRUE, FALSE):
                    sq = concat([it.at(kk)] + ([inst.seq(form[1])] if form[0] is TRUE else []))
                    if it.kind == "list":
                        st.heap[it.loc[1]] = ListC(sq)
                    else:
                        set_loc(st.heap, it.loc, I.mk_list(sq))
                    continue
            o = I.opq("list at loop exit")
            if it.kind == "list":
                st.heap[it.loc[1]] = ListC(FSeq(t.mk("opaque", "len-exit-%s" % it.uid, "int"),
                                                lambda i: o))
            else:
                set_loc(st.heap, it.loc, o)
            continue
        if it.loc[0] == "cell":
            if v is not None:
                st.heap[it.loc[1]] = inst.cell(v, Ref(it.loc[1]))
        else:
            set_loc(st.heap, it.loc, inst.val(v) if v is not None else None)


def finish(I, s, base, run, n, k, sv):
    ev, breaks = finish_exits(I, s, base, run, n, k, sv)
    done = None
    if run.post is not None:
        st = base.fork()
        facts = [sv.close(f) for f in run.post.facts.items[run.nb:]]
        neg = []
        if ev is not None:
            neg.append(t.forall(n, t.relam(ev[0], t.lnot)))
        body_f = t.land(*facts)
        if body_f is not TRUE and ev is None:
            neg.append(t.forall(n, t.abstract(k, body_f)))
        st.facts = st.facts.add(*neg)
        suffix = run.post.effects[len(run.start_effects):]
        st.effects = base.effects + ((("loop", n, k, suffix),) if suffix else ())
        st.taint = run.post.taint
        I.st = st
        final_items(I, s, st, base, run, n, sv)
        done = st
        if st.facts.inconsistent():
            done = None
    outs = []
    for e, occurs in breaks:
        if base.facts.decide(occurs) is FALSE:
            continue
        st = base.fork(occurs)
        st.taint = e.st.taint
        kstar = ev[1]
        pre = run.post.effects[len(run.start_effects):] if run.post is not None else ()
        suf = e.st.effects[len(run.start_effects):]
        eff = base.effects
        if pre:
            eff = eff + (("loop", kstar, k, pre),)
        if suf:
            eff = eff + suf
        st.effects = eff
        I.st = st
        apply_items(I, s, st, base, e.st, sv, kstar)
        outs.append(st)
    return done, outs


def final_items(I, s, st, base, run, n, sv):
    post = run.post
    k = s.k
    last = t.sub(n, ONE)
    nonempty = base.facts.decide(t.gt(n, ZERO)) is TRUE
    for it in s.items:
        if it.kind == "scalar":
            set_loc(st.heap, it.loc, base.facts.simplify(sv.scal[it.sym](n)))
        elif it.kind == "tuple" and callable(it.at):
            set_loc(st.heap, it.loc, it.at(n))
        elif it.kind == "arr":
            u, dt = it.uid, it.dtype
            shape = it.v0.arr.shape
            st.heap[it.loc[1]] = ArrC(Arr(shape, dt, memo_fn(
                lambda ix, u=u: sv.arrs[u](n, ix))))
        elif it.kind == "list":
            if callable(it.at):
                st.heap[it.loc[1]] = ListC(it.at(n))
            else:
                o = I.opq("list built in a loop")
                st.heap[it.loc[1]] = ListC(FSeq(t.mk("opaque", "len-%s" % it.uid, "int"),
                                                lambda i, o=o: o))
        elif it.kind == "reflist" and callable(it.at):
            set_loc(st.heap, it.loc, I.mk_list(it.at(n)))
        elif it.kind == "refarr" and callable(it.at):
            a = it.at(n)
            set_loc(st.heap, it.loc, I.new(ArrC(a)))
        elif it.kind in ("temp", "other", "reflist", "refarr") and it.at == "temp":
            v = get_loc(post.heap, it.loc)
            if v is None:
                continue
            inst = Inst(I, post.heap, base.heap, lambda x: t.subst(sv.close(x), {k: last}))
            v = inst.val(v)
            if it.kind == "other" and not isinstance(it.v0, (T, Ref)):
                pass
            if not nonempty:
                b = it.v0 if it.v0 is not None else Unbound("possibly unbound name")
                v = Phi(t.gt(n, ZERO), v, b)
            set_loc(st.heap, it.loc, v)
        elif it.kind == "opaque":
            place(I, st, it)
        else:
            set_loc(st.heap, it.loc, I.opq("value changed in a loop"))


def symbolic_for(I, n, bind, s, src=None):
    k = t.fresh("k", "int", sign="nonneg")
    base = I.st
    nb, bh, ef = len(base.facts.items), dict(base.heap), base.effects

    def body():
        bind(k)
        I.exec_block(s.body)

    done, breaks = summarise(I, n, k, body, s, src)
    after_loop(I, s, done, breaks, nb, bh, ef)


def after_loop(I, s, done, breaks, nb, bh, ef):
    outs = [(b, None) for b in breaks]
    if done is not None:
        I.st = done
        try:
            I.exec_block(s.orelse)
            outs.append((I.st, None))
        except Dead:
            pass
    if not outs:
        raise Dead()
    if len(outs) == 1:
        I.st = outs[0][0]
    else:
        I.st, _ = I.merge_many(outs, nb, bh, ef)


def symbolic_while(I, s):
    """while loops controlled by a counter."""
    k = t.fresh("k", "int", sign="nonneg")
    trip = t.fresh("trip", "int", sign="nonneg")
    base = I.st
    nb, bh, ef = len(base.facts.items), dict(base.heap), base.effects
    cond = [None]

    def body():
        c = I.truth(I.eval(s.test))
        cond[0] = c
        I.st.facts = I.st.facts.add(c)
        I.exec_block(s.body)

    sm = Summary(I, trip, k, body, base)
    run = sm.analyse()
    if run.post is None:
        I.st = base
        raise Unsupported("while loop")
    sv = Solver(I, k, trip, sm.items, run.post, base)
    sv.solve()
    c = sv.close(cond[0])
    n = None
    if not sv.loopy(c):
        n = trip_count(c, k)
    I.st = base
    if n is None:
        raise Unsupported("while loop")
    if base.facts.decide(t.ge(n, ZERO)) is not TRUE:
        n = t.vmax(n, ZERO)
    n = base.facts.simplify(n)

    def body2():
        I.eval(s.test)
        I.exec_block(s.body)

    k2 = t.fresh("k", "int", sign="nonneg")
    done, breaks = summarise(I, n, k2, body2, s)
    after_loop(I, s, done, breaks, nb, bh, ef)


def trip_count(c, k):
    """Number of iterations while a condition linear in k holds from k = 0."""
    if c.op not in ("lt", "le"):
        if c.op == "and":
            return None
        if c.op == "not" and c.args[0].op == "eqz":
            p = t.to_poly(c.args[0].args[0])
            a = p.get(((k, 1),))
            if a is None or any(t.depends(x, k) for m in p if m != ((k, 1),) for x, _ in m):
                return None
            rest = t.from_poly({m: v for m, v in p.items() if m != ((k, 1),)})
            r = t.mul(q(Fraction(-1) / a), rest)
            return r if t.is_int(r) else None
        return None
    p = t.to_poly(c.args[0])
    a = p.get(((k, 1),))
    if a is None or a <= 0 or any(t.depends(x, k) for m in p if m != ((k, 1),) for x, _ in m):
        return None
    rest = t.from_poly({m: v for m, v in p.items() if m != ((k, 1),)})
    r = t.mul(q(Fraction(-1) / a), rest)
    # a*k + rest < 0  <=>  k < r ; <= : k <= r
    if c.op == "lt":
        return t.ceil(r)
    return t.add(t.floor(r), ONE)


# ----------------------------------------------------------------------------------------------
# comprehensions


def comp_symbolic(I, n, sq, g, inner, last):
    k = t.fresh("k", "int", sign="nonneg")
    base = I.st
    cond = [TRUE]

    def body():
        I.assign(g.target, sq.get(k))
        ok = TRUE
        for c in g.ifs:
            ok = t.land(ok, I.truth(I.eval(c)))
        ok = I.simp(ok)
        d = I.decide(ok)
        if d is FALSE:
            cond[0] = FALSE
            return None
        cond[0] = TRUE if d is TRUE else ok
        if d is None:
            I.st.facts = I.st.facts.add(ok)
        return inner()

    return generic_map(I, n, k, body, base, cond, last)


def generic_map(I, n, k, body, base, cond, last):
    start = base.fork(t.lt(k, n))
    run = run_body(I, start, body)
    I.loops_summarised += 1
    I.st = base
    s = Summary(I, n, k, body, base)
    conds = cond[0]
    ev, breaks = finish_exits(I, s, base, run, n, k, None)
    if ev is not None:
        f = t.forall(n, t.relam(ev[0], t.lnot))
        I.st.facts = I.st.facts.add(f)
        if I.st.facts.inconsistent():
            raise Dead()
    if run.post is None:
        I.st.facts = I.st.facts.add(t.le(n, ZERO))
        if I.st.facts.inconsistent():
            raise Dead()
        return ESeq([])
    post = run.post
    bad = [l for l in changed_locations(base.heap, post.heap, list(base.heap))
           if not (l[0] == "var" and isinstance(base.heap[l[1]], EnvC)
                   and l[2] not in base.heap[l[1]].vars)]
    bad = [l for l in bad if l[0] != "var" or l[1] != I.frames[-1].env.id]
    if bad:
        I.taint("state changed inside a comprehension")
    I.st.taint = I.st.taint + tuple(x for x in post.taint if x not in I.st.taint)
    suffix = post.effects[len(run.start_effects):]
    if suffix:
        I.st.effects = I.st.effects + (("loop", n, k, suffix),)
    if conds is FALSE:
        return ESeq([])
    v = run.value
    if v is None:
        return None
    heap, bheap = post.heap, base.heap

    def inst(kk):
        return Inst(I, heap, bheap, lambda x: t.subst(x, {k: kk}))

    if last:
        if conds is TRUE:
            return FSeq(n, lambda i: inst(i).val(v))
        lam = t.abstract(k, conds)
        cnt = t.vsum(n, t.abstract(k, t.as_num(conds)))
        s = FSeq(I.simp(cnt), lambda j: inst(t.nth(n, lam, j)).val(v))
        s.filt = (n, lam)
        s.elem_at = lambda i: inst(i).val(v)
        return s
    # v is the inner sequence
    if conds is not TRUE or t.depends(v.n, k):
        return None
    m = v.n

    def get(j):
        r = t.floordiv(j, m)
        off = t.sub(j, t.mul(m, r))
        return inst(r).val(v.get(off))

    return FSeq(t.mul(m, n), get)


def map_symbolic(I, sq, f):
    k = t.fresh("k", "int", sign="nonneg")
    base = I.st
    return generic_map(I, sq.n, k, lambda: f(sq.get(k)), base, [TRUE], True)
