"""Models of the Python operators, subscripts and containers used by the analysed package."""

from fractions import Fraction

from . import terms as t
from .arrays import (arr_get, arr_set, bitlen, cast_arr, cast_elem, compress, concat_arrs, count_lam,
                     dtype_of, elem_dtype, ew, kind_rank, lam_elem, lift, memo_fn, norm_index,
                     promote, root_ref, same_dim, scalarish, slice_range, store_all, to_arr,
                     where_indices)
from .terms import FALSE, NONE, ONE, T, TRUE, ZERO, q
from .values import (Arr, ArrC, Bound, Builtin, CSeq, Cls, DictC, ELLIPSIS, ESeq, EnumMember, FSeq,
                     FileC, Func, ISeq, JsonText, ListC, Mod, NativeC, ObjC, Opq, Partial, Phi, Prop,
                     Ref, Seq, SeqV, SetC, SliceV, Tup, concat, flat_arr, gate, SymKey)


# ----------------------------------------------------------------------------------------------
# elementwise scalar functions


def s_pow(a, b):
    return t.power(t.as_num(a), t.as_num(b))


def s_and(a, b):
    if t.is_bool(a) and t.is_bool(b):
        return t.land(a, b)
    return bitop("and", a, b)


def s_or(a, b):
    if t.is_bool(a) and t.is_bool(b):
        return t.lor(a, b)
    return bitop("or", a, b)


def s_xor(a, b):
    if t.is_bool(a) and t.is_bool(b):
        return t.lnot(t.iff(a, b))
    return bitop("xor", a, b)


def bitop(op, a, b):
    a, b = t.as_num(a), t.as_num(b)
    if a.op == "q" and b.op == "q" and t.is_int(a) and t.is_int(b):
        x, y = int(a.args[0]), int(b.args[0])
        return q({"and": x & y, "or": x | y, "xor": x ^ y}[op])
    if op == "and":
        for u, v in ((a, b), (b, a)):
            if v is ONE and t.is_int(u):
                # (k >> i) & 1
                if u.op == "floor":
                    sh = _shift_of(u)
                    if sh is not None:
                        return t.bit(*sh)
                return t.mod(u, q(2))
    return t.mk("bitop", op, a, b)


def _shift_of(u):
    """floor(k * 2^-i) with symbolic k -> (k, i)."""
    p = t.to_poly(u.args[0])
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if len(m) == 1 and m[0][1] == 1 and c.numerator == 1:
        d = c.denominator
        if d & (d - 1) == 0:
            return m[0][0], q(d.bit_length() - 1)
    if c == 1 and len(m) == 2:
        for (x, ex), (y, ey) in ((m[0], m[1]), (m[1], m[0])):
            if ex == 1 and y.op == "pow" and y.args[0] is q(2):
                e = t.mul(y.args[1], q(ey))
                return x, t.neg(e)
    return None


def s_lshift(a, b):
    return t.mul(a, t.power(q(2), b))


def s_rshift(a, b):
    return t.floor(t.div(a, t.power(q(2), b)))


def float_dt(dts):
    r = "float"
    for d in dts:
        r = promote(r, d)
    return r


def num_dt(dts):
    r = dts[0]
    for d in dts[1:]:
        r = promote(r, d)
    return "int" if r == "bool" else r


ARITH = {
    "Add": (t.add, num_dt), "Sub": (t.sub, num_dt), "Mult": (t.mul, num_dt),
    "Div": (t.div, float_dt), "FloorDiv": (t.floordiv, num_dt), "Mod": (t.mod, num_dt),
    "Pow": (s_pow, num_dt), "BitAnd": (s_and, None), "BitOr": (s_or, None), "BitXor": (s_xor, None),
    "LShift": (s_lshift, num_dt), "RShift": (s_rshift, num_dt),
}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv",
          "Mod": "mod", "Pow": "pow", "BitAnd": "and", "BitOr": "or", "BitXor": "xor",
          "MatMult": "matmul"}


def is_numeric_scalar(x):
    return isinstance(x, T) and (t.is_num(x) or t.is_bool(x))


def is_text(x):
    return isinstance(x, T) and t.is_string(x)


def is_listlike(I, x):
    return isinstance(x, Tup) or I.is_list(x) or (isinstance(x, SeqV) and x.kind == "tuple")


def binop(I, op, a, b):
    if isinstance(a, Opq):
        return a
    if isinstance(b, Opq):
        return b
    if is_numeric_scalar(a) and is_numeric_scalar(b):
        if op in ("Div", "FloorDiv", "Mod"):
            zero_check(I, b)
        f = ARITH.get(op)
        if f is None:
            return I.opq("operator %s" % op)
        return f[0](a, b)
    for x, y, pre in ((a, b, "__"), (b, a, "__r")):
        if I.is_obj(x) and op in DUNDER:
            m, _ = I.cell(x).cls.lookup(pre + DUNDER[op] + "__")
            if m is not None:
                return I.call(m, [x, y], {})
    if I.is_arr(a) or I.is_arr(b):
        if op == "MatMult":
            return call_named(I, "numpy.dot", [a, b], {})
        f = ARITH.get(op)
        if f is None:
            return I.opq("operator %s" % op)
        return ew(I, f[0], [a, b], f[1])
    if is_text(a) or is_text(b):
        if op == "Add":
            if is_text(a) and is_text(b):
                return t.cat(a, b)
            if isinstance(a, T) and isinstance(b, T):
                if any(x.op in ("sym", "opaque") and not t.is_num(x) and not t.is_string(x)
                       for x in (a, b)):
                    return I.opq("text concatenation")
            I.raise_exc("TypeError", "can only concatenate str")
        if op == "Mod" and is_text(a):
            return percent_format(I, a, b)
        if op == "Mult":
            s, n = (a, b) if is_text(a) else (b, a)
            if isinstance(n, T) and n.op == "q":
                return t.cat(*([s] * max(0, int(n.args[0]))))
        if op in ("Sub", "Div", "FloorDiv", "Pow", "BitAnd", "BitOr", "BitXor", "LShift", "RShift", "MatMult") and all(
                is_text(x) or is_numeric_scalar(x) or x is NONE for x in (a, b)):
            I.raise_exc("TypeError", "unsupported operand type")
        return I.opq("text operator")
    if op == "Add" and isinstance(a, JsonText) and is_text(b) and b.op == "str":
        return JsonText(a.snap, a.opts, a.suffix + b.args[0])
    if is_listlike(I, a) and is_listlike(I, b) and op == "Add":
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if I.is_list(a) != I.is_list(b):
            I.raise_exc("TypeError", "can only concatenate list")
        sq = concat([I.seq_of(a), I.seq_of(b)])
        if I.is_list(a):
            la, lb = getattr(I.seq_of(a), "lit", None), getattr(I.seq_of(b), "lit", None)
            if sq.items is not None and la == lb:
                sq.lit = la
            return I.mk_list(sq)
        return SeqV(sq, "tuple")
    if op == "Mult":
        for x, n in ((a, b), (b, a)):
            if is_listlike(I, x) and is_numeric_scalar(n):
                return repeat_seq(I, x, n)
    sa, sb = set_cell(I, a), set_cell(I, b)
    if sa is not None and sb is not None:
        return set_op(I, {"BitAnd": "and", "BitOr": "or", "Sub": "sub", "BitXor": "xor"}.get(op),
                      sa, sb)
    if op == "BitOr" and I.is_dict(a) and I.is_dict(b):
        r = I.new(I.cell(a))
        call_named(I, "dict.update", [r, b], {})
        return r
    if op == "Div" and isinstance(a, Ref) and isinstance(I.cell(a), NativeC) and I.cell(a).kind == "path":
        return I.new(NativeC("path", t.mk("strfn", "pathjoin", path_term(I, a), str_value(I, b))))
    if isinstance(a, (Cls, Builtin)) or isinstance(b, (Cls, Builtin)):
        return Builtin("typing.Union")
    if a is NONE or b is NONE:
        I.raise_exc("TypeError", "unsupported operand type(s)")
    if is_listlike(I, a) or is_listlike(I, b):
        other = b if is_listlike(I, a) else a
        if is_numeric_scalar(other) or is_listlike(I, other):
            I.raise_exc("TypeError", "unsupported operand type(s)")
    return I.opq("operator %s on %r, %r" % (op, a, b))


def zero_check(I, b):
    """Division of scalars: no exit is recorded, but the divisor must be known to be non-zero."""
    return None


def repeat_seq(I, x, n):
    sq = I.seq_of(x)
    n = I.simp(t.as_num(n))
    if not t.is_int(n) and n.op == "q":
        I.raise_exc("TypeError", "can't multiply sequence by non-int")
    if n.op == "q" and sq.items is not None:
        r = ESeq(list(sq.items) * max(0, int(n.args[0])))
        r.lit = getattr(sq, "lit", None)
        return Tup(r.items) if isinstance(x, Tup) else I.mk_list(r)
    m = sq.n
    nn = n if I.decide(t.ge(n, ZERO)) is TRUE else t.vmax(n, ZERO)
    if m is ONE:
        item = sq.get(ZERO)
        r = FSeq(nn, lambda i: item)
        return I.mk_list(r) if I.is_list(x) else SeqV(r, "tuple")
    r = FSeq(t.mul(m, nn), lambda i: sq.get(t.mod(i, m)))
    return I.mk_list(r) if I.is_list(x) else SeqV(r, "tuple")


CMP = {"Lt": t.lt, "LtE": t.le, "Gt": t.gt, "GtE": t.ge, "Eq": t.eq, "NotEq": t.ne}


def compare(I, n, a, b):
    if isinstance(a, Opq):
        return a
    if isinstance(b, Opq):
        return b
    if I.is_arr(a) or I.is_arr(b):
        other = b if I.is_arr(a) else a
        if other is NONE:
            r = FALSE if n == "Eq" else TRUE
            return ew(I, lambda x: r, [a if I.is_arr(a) else b], "bool")
        return ew(I, scalar_cmp(n), [a, b], "bool")
    if n in ("Eq", "NotEq"):
        r = I.val_eq(a, b)
        return r if n == "Eq" else t.lnot(r)
    if is_numeric_scalar(a) and is_numeric_scalar(b):
        return CMP[n](t.as_num(a), t.as_num(b))
    if is_text(a) and is_text(b):
        if a.op == "str" and b.op == "str":
            x, y = a.args[0], b.args[0]
            return t.boolean({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[n])
        return t.mk("opaque", "strcmp:%s:%d:%d" % (n, a.id, b.id), "bool")
    if I.is_obj(a):
        m, _ = I.cell(a).cls.lookup({"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__",
                                     "GtE": "__ge__"}[n])
        if m is not None:
            return I.call(m, [a, b], {})
    sa, sb = set_cell(I, a), set_cell(I, b)
    if sa is not None and sb is not None:
        return set_cmp(I, n, sa, sb)
    if a is NONE or b is NONE or (is_text(a) and is_numeric_scalar(b)) or (
            is_text(b) and is_numeric_scalar(a)):
        I.raise_exc("TypeError", "ordering not supported between these types")
    if is_listlike(I, a) and is_listlike(I, b):
        x, y = I.seq_of(a), I.seq_of(b)
        if x.items is not None and y.items is not None:
            return lex_cmp(I, n, x.items, y.items)
    if is_listlike(I, a) and isinstance(b, T) and b.op == "q" or is_listlike(I, b) and isinstance(a, T) and a.op == "q":
        I.raise_exc("TypeError", "ordering not supported between these types")
    if isinstance(a, T) and isinstance(b, T) and (a.op == "sym" or b.op == "sym"):
        return t.mk("opaque", "cmp:%s:%d:%d" % (n, a.id, b.id), "bool")
    return I.opq("comparison %s" % n)


def scalar_cmp(n):
    f = CMP[n]

    def g(x, y):
        if n in ("Eq", "NotEq"):
            return f(x, y)
        return f(t.as_num(x), t.as_num(y))

    return g


def lex_cmp(I, n, xs, ys):
    strict = {"Lt": "Lt", "LtE": "Lt", "Gt": "Gt", "GtE": "Gt"}[n]
    if not xs or not ys:
        d = len(xs) - len(ys)
        return t.boolean({"Lt": d < 0, "LtE": d <= 0, "Gt": d > 0, "GtE": d >= 0}[n])
    c = I.truth(compare(I, strict, I.res(xs[0]), I.res(ys[0])))
    e = I.val_eq(xs[0], ys[0])
    return t.lor(c, t.land(e, lex_cmp(I, n, xs[1:], ys[1:])))


def ufunc1(I, x, fn, dtype):
    x = I.res(x)
    if isinstance(x, T):
        if t.is_string(x) or x is NONE:
            I.raise_exc("TypeError", "bad operand type for unary operator")
        return fn(t.as_num(x) if t.is_bool(x) and fn is t.neg else x)
    if I.is_obj(x):
        return I.opq("unary operator on object")
    if not I.is_arr(x):
        if is_listlike(I, x):
            I.raise_exc("TypeError", "bad operand type for unary operator")
        return I.opq("unary operator")
    return ew(I, fn, [x], dtype)


# ----------------------------------------------------------------------------------------------
# subscripts


def get_item(I, o, k):
    o, k = I.res(o), I.res(k)
    if isinstance(o, Phi):
        return I.fork_value(o.c, lambda: get_item(I, o.a, k), lambda: get_item(I, o.b, k))
    if isinstance(k, Phi):
        return I.fork_value(k.c, lambda: get_item(I, o, k.a), lambda: get_item(I, o, k.b))
    if isinstance(o, Opq):
        return o
    if isinstance(k, Opq) and not isinstance(o, (Builtin, Cls)):
        return k
    if isinstance(o, Builtin):
        return o  # typing subscripts
    if isinstance(o, Cls):
        if o.kind == "enum" and isinstance(k, T) and k.op == "str":
            v = o.attrs.get(k.args[0])
            if isinstance(v, EnumMember):
                return v
            I.raise_exc("KeyError", k.args[0])
        return o
    if isinstance(o, (Tup, SeqV)):
        return seq_get(I, I.seq_of(o), k, o)
    if isinstance(o, T) and t.is_string(o):
        return str_get(I, o, k)
    if isinstance(o, T):
        if is_numeric_scalar(o) or o is NONE:
            if isinstance(k, Tup) and not k.items or k is ELLIPSIS:
                return o
            I.raise_exc("TypeError", "object is not subscriptable")
        return I.opq("subscript")
    if isinstance(o, Ref):
        c = I.cell(o)
        if isinstance(c, ArrC):
            return arr_get(I, o, k)
        if isinstance(c, ListC):
            return seq_get(I, c.seq, k, o)
        if isinstance(c, DictC):
            return dict_get(I, o, c, k)
        if isinstance(c, ObjC):
            m, _ = c.cls.lookup("__getitem__")
            if m is not None:
                return I.call(m, [o, k], {})
        if isinstance(c, NativeC) and c.kind == "r_":
            return call_named(I, "numpy.concatenate", [Tup([_at1(I, x) for x in (
                k.items if isinstance(k, Tup) else [k])])], {})
    return I.opq("subscript of %r" % (o,))


def _at1(I, x):
    return call_named(I, "numpy.atleast_1d", [x], {})


def seq_get(I, sq, k, o):
    if isinstance(k, SliceV):
        r = slice_seq(I, sq, k)
        if r is None:
            return I.opq("slice")
        if isinstance(o, Tup):
            return Tup(r.items)
        if I.is_list(o):
            return I.mk_list(r)
        return SeqV(r, getattr(o, "kind", "tuple"))
    if I.is_arr(k):
        a = I.arr(k)
        if a.flat is not None and len(a.flat) == 1:
            k = a.flat[0]
    if not isinstance(k, T) or t.is_string(k) or k is NONE:
        if isinstance(k, (Tup,)) or isinstance(k, T):
            I.raise_exc("TypeError", "list indices must be integers or slices")
        return I.opq("list index")
    if I.is_list(o) or isinstance(o, (Tup, SeqV)):
        k = norm_index(I, k, sq.n, "list index")
        v = sq.get(k)
        return v
    return I.opq("index")


def slice_seq(I, sq, s):
    r = slice_range(I, s, sq.n)
    if r is None:
        return None
    a, ln, st = r
    if sq.items is not None and a.op == "q" and ln.op == "q":
        s0, n = int(a.args[0]), int(ln.args[0])
        e = ESeq([sq.items[s0 + st * j] for j in range(n)])
        e.lit = getattr(sq, "lit", None)
        return e
    if a is ZERO and ln is sq.n and st == 1:
        return sq
    return FSeq(ln, lambda i: sq.get(t.add(a, t.mul(q(st), i))))


def str_get(I, o, k):
    if isinstance(k, (Tup, Ref)) or isinstance(k, T) and (k is NONE or t.is_string(k)):
        I.raise_exc("TypeError", "string indices must be integers")
    if o.op == "str":
        s = o.args[0]
        if isinstance(k, SliceV):
            b = []
            for x in (k.lo, k.hi, k.step):
                x = I.res(x)
                if x is NONE:
                    b.append(None)
                elif isinstance(x, T) and x.op == "q":
                    b.append(int(x.args[0]))
                else:
                    return I.opq("text slice")
            return t.string(s[slice(*b)])
        if isinstance(k, T) and k.op == "q":
            try:
                return t.string(s[int(k.args[0])])
            except IndexError:
                I.raise_exc("IndexError", "string index out of range")
        if isinstance(k, T):
            i = norm_index(I, k, q(len(s)), "string index")
            return ESeq([t.string(c) for c in s]).get(i)
        return I.opq("text index")
    if o.op == "cat" and isinstance(k, SliceV) and o.args[0].op == "str":
        # text after a known prefix
        lo, hi, st = I.res(k.lo), I.res(k.hi), I.res(k.step)
        p = len(o.args[0].args[0])
        if isinstance(lo, T) and lo.op == "q" and lo.args[0] == p and hi is NONE:
            rest = t.cat(*o.args[1:])
            return rest if st is NONE else str_get(I, rest, SliceV(NONE, NONE, st))
    if o.op == "binrepr":
        n = bitlen(o.args[0])
        if isinstance(k, SliceV):
            r = slice_range(I, k, n)
            if r is None:
                return I.opq("text slice")
            a, ln, st = r
            return SeqV(FSeq(ln, lambda i: t.mk("charat", o, t.add(a, t.mul(q(st), i)))), "str")
        if isinstance(k, T):
            return t.mk("charat", o, norm_index(I, k, n, "string index"))
    return I.opq("text index")


def dict_get(I, o, c, k):
    if c.opaque:
        return I.opq("item of unknown dictionary")
    key = I.key(k)
    if key is not None and not has_sym(c):
        if key not in c.entries:
            if c.default is not None:
                v = I.call(c.default, [], {})
                set_item(I, o, k, v)
                return v
            I.raise_exc("KeyError", str(key))
        cond, v = c.entries[key]
        d = I.decide(cond)
        if d is FALSE:
            I.raise_exc("KeyError", str(key))
        if d is None:
            I.raise_exc("KeyError", str(key), t.lnot(cond))
        return v
    if isinstance(k, (T, Tup)):
        # symbolic key, or symbolic entries
        if c.default is not None:
            return I.opq("default of a dictionary with symbolic keys")
        conds = dict_hits(I, c, k)
        hit = t.lor(*[x for x, _ in conds]) if conds else FALSE
        d = I.decide(hit)
        if d is FALSE:
            I.raise_exc("KeyError", "key")
        if d is None:
            I.raise_exc("KeyError", "key", t.lnot(hit))
        r = conds[-1][1]
        for x, v in reversed(conds[:-1]):
            r = I.gatev(x, v, r)
        return r
    return I.opq("dictionary key")


def has_sym(c):
    return any(isinstance(k, SymKey) for k in c.entries)


def dict_hits(I, c, k):
    """(condition, value) of the entries that may hold key k."""
    out = []
    for kk, (cond, v) in c.entries.items():
        x = t.land(cond, I.val_eq(k, I.unkey(kk)))
        d = I.decide(x)
        if d is not FALSE:
            out.append((TRUE if d is TRUE else x, v))
    return out


def dict_put(I, o, c, k, v):
    """Store under a key when the key or an entry is symbolic."""
    key = I.key(k)
    key = I.symkey(k) if key is None else key
    if c.opaque or key is None:
        I.put(o, DictC({}, True))
        return
    ent = {}
    for kk, (cond, w) in c.entries.items():
        same = I.val_eq(k, I.unkey(kk))
        d = I.decide(same)
        if d is TRUE or kk == key:
            if kk != key:
                ent[kk] = (TRUE, v)
            continue
        ent[kk] = (cond, w) if d is FALSE else (cond, I.gatev(same, v, w))
    ent[key] = (TRUE, v)
    I.put(o, DictC(ent, default=c.default))


def set_item(I, o, k, v):
    o, k = I.res(o), I.res(k)
    if isinstance(o, Phi):
        def put(x):
            set_item(I, x, k, v)
            return NONE
        I.fork_value(o.c, lambda: put(o.a), lambda: put(o.b))
        return
    if isinstance(o, Ref):
        c = I.cell(o)
        if isinstance(c, ArrC):
            if isinstance(k, (Opq, Phi)):
                from .arrays import havoc_arr

                havoc_arr(I, o, "store at unknown index")
                return
            arr_set(I, o, k, v)
            return
        if isinstance(c, DictC):
            key = I.key(k)
            if key is None or has_sym(c):
                dict_put(I, o, c, k, v)
                return
            if c.opaque:
                I.put(o, DictC({}, True))
                return
            ent = dict(c.entries)
            ent[key] = (TRUE, v)
            I.put(o, DictC(ent, default=c.default))
            return
        if isinstance(c, ListC):
            sq = c.seq
            if isinstance(k, SliceV):
                new = I.seq_of(v)
                r = slice_range(I, k, sq.n)
                if r is None or new is None:
                    I.put(o, ListC(FSeq(sq.n, lambda i: Opq("list slice store"))))
                    return
                a, ln, st = r
                if st == 1 and sq.items is not None and new.items is not None and a.op == "q" and ln.op == "q":
                    i0, n0 = int(a.args[0]), int(ln.args[0])
                    I.put(o, ListC(ESeq(sq.items[:i0] + new.items + sq.items[i0 + n0:])))
                    return
                if st == 1 and same_dim(I, new.n, ln):
                    end = t.add(a, ln)
                    I.put(o, ListC(FSeq(sq.n, lambda i: gate(
                        t.land(t.ge(i, a), t.lt(i, end)), new.get(t.sub(i, a)), sq.get(i)))))
                    return
                I.put(o, ListC(FSeq(sq.n, lambda i: Opq("list slice store"))))
                I.taint("list slice store")
                return
            if not isinstance(k, T):
                I.put(o, ListC(FSeq(sq.n, lambda i: Opq("list store"))))
                return
            kk = norm_index(I, k, sq.n, "list assignment index")
            if sq.items is not None:
                if kk.op == "q":
                    items = list(sq.items)
                    items[int(kk.args[0])] = v
                else:
                    items = [gate(t.eq(kk, q(j)), v, x) for j, x in enumerate(sq.items)]
                I.put(o, ListC(ESeq(items)))
                return
            I.put(o, ListC(FSeq(sq.n, lambda i: gate(t.eq(i, kk), v, sq.get(i)))))
            return
        if isinstance(c, ObjC):
            m, _ = c.cls.lookup("__setitem__")
            if m is not None:
                I.call(m, [o, k, v], {})
                return
    if isinstance(o, (Tup,)) or (isinstance(o, T) and not o.op == "opaque"):
        I.raise_exc("TypeError", "object does not support item assignment")
    I.taint("store into %r" % (o,))


def del_item(I, o, k):
    o, k = I.res(o), I.res(k)
    if I.is_dict(o):
        c = I.cell(o)
        key = I.key(k)
        if c.opaque or key is None or has_sym(c):
            I.put(o, DictC({}, True))
            return
        dict_get(I, o, c, k)
        ent = dict(I.cell(o).entries)
        ent.pop(key, None)
        I.put(o, DictC(ent, default=c.default))
        return
    if I.is_list(o):
        call_named(I, "list.pop", [o, k], {})
        return
    I.taint("del of %r" % (o,))


def contains(I, a, b):
    a, b = I.res(a), I.res(b)
    if isinstance(b, Phi):
        return t.ite(b.c, _cond(contains(I, a, b.a)), _cond(contains(I, a, b.b)))
    if isinstance(a, Opq) or isinstance(b, Opq):
        return a if isinstance(a, Opq) else b
    if isinstance(b, T) and t.is_string(b):
        if isinstance(a, T) and a.op == "str" and b.op == "str":
            return t.boolean(a.args[0] in b.args[0])
        if isinstance(a, T) and not t.is_string(a) and (t.is_num(a) or a is NONE):
            I.raise_exc("TypeError", "'in <string>' requires string")
        if isinstance(a, T) and t.is_string(a):
            return t.mk("strtest", "contains", b, a)
        if isinstance(a, T):
            return t.mk("opaque", "instr:%d:%d" % (a.id, b.id), "bool")
        return I.opq("in text")
    if I.is_dict(b):
        c = I.cell(b)
        if c.opaque:
            return I.opq("in unknown dictionary")
        key = I.key(a)
        if key is not None and not has_sym(c):
            return c.entries[key][0] if key in c.entries else FALSE
        return t.lor(*[t.land(cond, I.val_eq(a, I.unkey(k))) for k, (cond, _) in c.entries.items()]) \
            if c.entries else FALSE
    if isinstance(b, Cls) and b.kind == "enum":
        from .interp import enum_members

        return t.boolean(isinstance(a, EnumMember) and a in enum_members(b))
    sc = set_cell(I, b)
    if sc is not None:
        if sc.pred is not None:
            n, p = sc.pred
            if isinstance(a, T) and is_numeric_scalar(a):
                return t.land(t.ge(a, ZERO), t.lt(a, n), _cond(p(a)))
            return I.opq("membership")
        return t.lor(*[t.land(c, I.val_eq(a, x)) for c, x in sc.items]) if sc.items else FALSE
    if I.is_obj(b):
        m, _ = I.cell(b).cls.lookup("__contains__")
        if m is not None:
            return I.truth(I.call(m, [b, a], {}))
    sq = I.seq_of(b)
    if sq is None:
        return I.opq("membership")
    if sq.items is not None:
        return t.lor(*[I.val_eq(a, x) for x in sq.items]) if sq.items else FALSE
    return t.exists(sq.n, I.lam(lambda i: I.val_eq(a, sq.get(i))))


def _cond(x):
    return x if isinstance(x, T) else t.mk("opaque", "cond:%d" % id(x), "bool")


# ----------------------------------------------------------------------------------------------
# sets


def set_cell(I, v):
    if isinstance(v, Ref) and isinstance(I.cell(v), SetC):
        return I.cell(v)
    return None


def make_set(I, sq):
    if sq is None:
        return I.opq("set of unknown iterable")
    tag = getattr(sq, "tag", None)
    if tag and tag[0] == "mask":
        n, p = tag[1]
        return I.new(SetC(None, (n, p)))
    if sq.items is not None:
        return I.new(SetC(dedup(I, [(TRUE, x) for x in sq.items])))
    if isinstance(sq, CSeq) or isinstance(sq, ISeq):
        items = cond_items(sq, TRUE)
        if items is not None:
            return I.new(SetC(dedup(I, items)))
    if getattr(sq, "filt", None):
        n, p = sq.filt
        return I.new(SetC(None, (n, p)))
    if isinstance(sq, FSeq):
        v = t.fresh("i", "int", sign="nonneg")
        x = sq.get(v)
        if x is v:
            return I.new(SetC(None, (sq.n, lambda i: TRUE)))
        if isinstance(x, T) and not t.depends(x, v):
            return I.new(SetC([(t.gt(sq.n, ZERO), x)]))
    return I.opq("set of symbolic length")


def cond_items(sq, c):
    if sq.items is not None:
        return [(c, x) for x in sq.items]
    if isinstance(sq, CSeq):
        out = []
        for p in sq.parts:
            r = cond_items(p, c)
            if r is None:
                return None
            out += r
        return out
    if isinstance(sq, ISeq):
        a = cond_items(sq.a, t.land(c, sq.c))
        b = cond_items(sq.b, t.land(c, t.lnot(sq.c)))
        return None if a is None or b is None else a + b
    return None


def dedup(I, items):
    """Make membership conditions mutually exclusive for equal elements."""
    out = []
    for c, x in items:
        dup = FALSE
        for c2, y in out:
            dup = t.lor(dup, t.land(c2, I.val_eq(x, y)))
        d = I.decide(dup)
        if d is TRUE:
            continue
        cc = t.land(c, t.lnot(dup)) if d is None else c
        if cc is not FALSE:
            out.append((cc, x))
    return out


def set_len(I, c):
    if c.pred is not None:
        n, p = c.pred
        return count_lam(n, I.lam(lambda i: _cond(p(i))))
    return t.add(ZERO, *[t.as_num(k) for k, _ in c.items])


def set_op(I, op, a, b):
    if op is None:
        return I.opq("set operator")
    if a.pred is not None and b.pred is not None:
        if not same_dim(I, a.pred[0], b.pred[0]):
            return I.opq("sets over different ranges")
        n, p, r = a.pred[0], a.pred[1], b.pred[1]
        f = {"and": lambda i: t.land(_cond(p(i)), _cond(r(i))),
             "or": lambda i: t.lor(_cond(p(i)), _cond(r(i))),
             "sub": lambda i: t.land(_cond(p(i)), t.lnot(_cond(r(i)))),
             "xor": lambda i: t.lnot(t.iff(_cond(p(i)), _cond(r(i))))}[op]
        return I.new(SetC(None, (n, f)))
    if a.pred is not None or b.pred is not None:
        if op == "and":
            s, p = (a, b) if a.pred is None else (b, a)
            n, f = p.pred
            return I.new(SetC([(t.land(c, t.ge(x, ZERO), t.lt(x, n), _cond(f(x))), x)
                               for c, x in s.items if isinstance(x, T)]))
        return I.opq("set operator")

    def mem(x, s):
        return t.lor(*[t.land(c, I.val_eq(x, y)) for c, y in s.items]) if s.items else FALSE

    if op == "and":
        return I.new(SetC([(cc, x) for cc, x in ((t.land(c, mem(x, b)), x) for c, x in a.items)
                           if cc is not FALSE]))
    if op == "sub":
        return I.new(SetC([(cc, x) for cc, x in (
            (t.land(c, t.lnot(mem(x, b))), x) for c, x in a.items) if cc is not FALSE]))
    if op == "or":
        return I.new(SetC(dedup(I, a.items + b.items)))
    l = [(t.land(c, t.lnot(mem(x, b))), x) for c, x in a.items]
    r = [(t.land(c, t.lnot(mem(x, a))), x) for c, x in b.items]
    return I.new(SetC([(c, x) for c, x in l + r if c is not FALSE]))


def set_eq(I, a, b):
    return t.land(subset(I, a, b), subset(I, b, a))


def subset(I, a, b):
    if a.pred is not None and b.pred is not None:
        n, p = a.pred
        m, r = b.pred
        return t.forall(n, I.lam(lambda i: t.implies(_cond(p(i)), t.land(t.lt(i, m), _cond(r(i))))))
    if a.pred is not None or b.pred is not None:
        if a.pred is None:
            n, p = b.pred
            return t.land(*[t.implies(c, t.land(t.ge(x, ZERO), t.lt(x, n), _cond(p(x))))
                            for c, x in a.items])
        return t.mk("opaque", "subset:%d:%d" % (id(a), id(b)), "bool")
    return t.land(*[t.implies(c, t.lor(*[t.land(k, I.val_eq(x, y)) for k, y in b.items]))
                    for c, x in a.items])


def set_cmp(I, n, a, b):
    if n in ("LtE", "Lt"):
        r = subset(I, a, b)
        return r if n == "LtE" else t.land(r, t.lnot(subset(I, b, a)))
    return set_cmp(I, {"GtE": "LtE", "Gt": "Lt"}[n], b, a)


# ----------------------------------------------------------------------------------------------
# text


def str_value(I, x):
    x = I.res(x)
    if isinstance(x, T):
        if x.op == "arrsym":
            return I.opq("text of array symbol")
        if t.is_bool(x) and x.op != "bool":
            return t.ite(x, t.string("True"), t.string("False"))
        return t.tostr(x)
    if isinstance(x, Phi):
        a, b = str_value(I, x.a), str_value(I, x.b)
        return gate(x.c, a, b)
    if isinstance(x, EnumMember):
        if x.cls.issub("str") and False:
            return x.value
        return t.string("%s.%s" % (x.cls.name, x.name))
    if I.is_obj(x):
        c = I.cell(x)
        m, _ = c.cls.lookup("__str__")
        if m is not None:
            return I.call(m, [x], {})
        if c.cls.issub("BaseException"):
            args = c.fields.get("args")
            if isinstance(args, Tup):
                if len(args.items) == 0:
                    return t.string("")
                if len(args.items) == 1:
                    return str_value(I, args.items[0])
        m, _ = c.cls.lookup("__repr__")
        if m is not None:
            return I.call(m, [x], {})
        return I.opq("text of object")
    if isinstance(x, Cls):
        return t.string("<class '%s.%s'>" % (x.mod, x.name))
    if isinstance(x, Builtin):
        return t.string("<class '%s'>" % x.name)
    return repr_value(I, x)


def repr_value(I, x):
    x = I.res(x)
    if isinstance(x, T):
        if x.op == "arrsym":
            return I.opq("text of array symbol")
        if t.is_string(x):
            if x.op == "str":
                return t.string(repr(x.args[0]))
            return t.mk("repr", x)
        if x.op == "ite":
            return gate(x.args[0], repr_value(I, x.args[1]), repr_value(I, x.args[2]))
        if x.op == "sym" and x.args[1] == "any":
            return t.mk("repr", x)
        return str_value(I, x)
    if isinstance(x, Phi):
        return gate(x.c, repr_value(I, x.a), repr_value(I, x.b))
    if isinstance(x, Opq):
        return x
    if isinstance(x, Tup):
        parts = [repr_value(I, y) for y in x.items]
        if any(not isinstance(p, T) for p in parts):
            return I.opq("repr")
        inner = []
        for i, p in enumerate(parts):
            if i:
                inner.append(t.string(", "))
            inner.append(p)
        if len(parts) == 1:
            inner.append(t.string(","))
        return t.cat(t.string("("), *inner, t.string(")"))
    if isinstance(x, EnumMember):
        return t.cat(t.string("<%s.%s: " % (x.cls.name, x.name)), repr_value(I, x.value), t.string(">"))
    if isinstance(x, Cls):
        return t.string("<class '%s.%s'>" % (x.mod, x.name))
    if isinstance(x, Ref):
        c = I.cell(x)
        if isinstance(c, ArrC):
            a = I.arr(x)
            return nprepr(I, a)
        if isinstance(c, ListC):
            j = join_seq(I, t.string(", "), c.seq, lambda y: repr_value(I, y))
            return t.cat(t.string("["), j, t.string("]")) if isinstance(j, T) else j
        if isinstance(c, DictC) and not c.opaque and not c.open_keys() and all(k is TRUE for k, _ in c.entries.values()):
            inner = []
            for i, (k, (_, v)) in enumerate(c.entries.items()):
                r = repr_value(I, v)
                kr = repr_value(I, I.unkey(k))
                if not isinstance(r, T) or not isinstance(kr, T):
                    return I.opq("repr of dictionary")
                inner += [t.string(", ")] if i else []
                inner += [kr, t.string(": "), r]
            return t.cat(t.string("{"), *inner, t.string("}"))
        if isinstance(c, ObjC):
            m, _ = c.cls.lookup("__repr__")
            if m is not None:
                return I.call(m, [x], {})
            if c.cls.issub("BaseException"):
                return t.cat(t.string(c.cls.name + "("), str_value(I, x), t.string(")"))
    return I.opq("repr")


def nprepr(I, a):
    if a.ndim == 1:
        if a.flat is not None:
            if all(isinstance(x, T) for x in a.flat):
                return t.mk("nprepr", *a.flat)
            return I.opq("repr of array")
        lam = lam_elem(I, lambda i: a.get((i,)))
        if lam is not None:
            return t.mk("nprepr", a.shape[0], lam)
    return I.opq("repr of array")


def format_value(I, x, spec):
    if not (isinstance(spec, T) and spec.op == "str"):
        return I.opq("format specification")
    s = spec.args[0]
    if s == "":
        return str_value(I, x)
    x = I.res(x)
    if isinstance(x, T):
        if x.op == "ite":
            return gate(x.args[0], format_value(I, x.args[1], spec), format_value(I, x.args[2], spec))
        if x.op == "str":
            try:
                return t.string(format(x.args[0], s))
            except ValueError:
                I.raise_exc("ValueError", "format")
        if s == "s" and t.is_string(x):
            return x
        if s == "b" and t.is_int(x):
            if x.op == "q":
                return t.string(format(int(x.args[0]), "b"))
            if I.decide(t.ge(x, ONE)) is TRUE:
                return t.mk("binrepr", x)
        return t.mk("fmt", x, t.string(s))
    return I.opq("format")


def join_seq(I, sep, sq, conv=None):
    """sep.join(seq) as a term."""
    conv = conv or (lambda y: y)
    if sq is None:
        return I.opq("join")
    if sq.items is not None:
        parts = []
        for i, y in enumerate(sq.items):
            s = conv(y)
            s = I.res(s)
            if isinstance(s, Phi):
                return I.opq("join")
            if not isinstance(s, T):
                return s if isinstance(s, Opq) else I.opq("join")
            if not t.is_string(s):
                if t.is_num(s) or t.is_bool(s) or s is NONE:
                    I.raise_exc("TypeError", "sequence item: expected str instance")
                return I.opq("join of unknown value")
            if i:
                parts.append(sep)
            parts.append(s)
        return t.cat(*parts)
    if isinstance(sq, ISeq):
        st = I.st
        return I.fork_value(sq.c, lambda: join_seq(I, sep, sq.a, conv),
                            lambda: join_seq(I, sep, sq.b, conv))
    if isinstance(sq, CSeq):
        for j, p in enumerate(sq.parts):
            if isinstance(p, ISeq):
                rest = lambda p2: concat(sq.parts[:j] + [p2] + sq.parts[j + 1:])
                return I.fork_value(p.c, lambda: join_seq(I, sep, rest(p.a), conv),
                                    lambda: join_seq(I, sep, rest(p.b), conv))
        if all(p.items is not None or I.decide(t.ge(p.n, ONE)) is TRUE for p in sq.parts):
            parts = []
            for p in sq.parts:
                s = join_seq(I, sep, p, conv)
                if not isinstance(s, T):
                    return s
                parts += [sep, s] if parts else [s]
            return t.cat(*parts)
    v = t.fresh("i", "int", sign="nonneg")
    x = conv(sq.get(v))
    if not isinstance(x, T):
        return I.opq("join")
    if not t.is_string(x):
        if t.is_num(x) or t.is_bool(x):
            I.raise_exc("TypeError", "sequence item: expected str instance")
        return I.opq("join of unknown value")
    return t.mk("join", sep, sq.n, t.abstract(v, x))


def percent_format(I, a, b):
    if a.op != "str":
        return I.opq("% formatting")
    args = list(b.items) if isinstance(b, Tup) else [b]
    out, i, s, k = [], 0, a.args[0], 0
    import re

    for m in re.finditer(r"%(%|([-+ 0#]*)(\d*)(\.\d+)?([sdrifgeEGx]))", s):
        out.append(t.string(s[k:m.start()]))
        k = m.end()
        if m.group(1) == "%":
            out.append(t.string("%"))
            continue
        if i >= len(args):
            I.raise_exc("TypeError", "not enough arguments for format string")
        x = args[i]
        i += 1
        plain = not (m.group(2) or m.group(3) or m.group(4))
        conv = m.group(5)
        if conv == "s" and plain:
            r = str_value(I, x)
        elif conv == "r" and plain:
            r = repr_value(I, x)
        elif conv == "d" and plain and isinstance(x, T) and t.is_int(x):
            r = str_value(I, x)
        elif isinstance(x, T):
            r = t.mk("fmt", x, t.string("%" + m.group(1)))
        else:
            r = I.opq("% formatting")
        if not isinstance(r, T):
            return r
        out.append(r)
    out.append(t.string(s[k:]))
    if "%" in re.sub(r"%(%|([-+ 0#]*)(\d*)(\.\d+)?([sdrifgeEGx]))", "", s):
        return I.opq("% formatting")
    return t.cat(*out)


def str_format(I, fmt, args, kwargs):
    import string as pystring

    if fmt.op != "str":
        return I.opq("format of unknown text")
    out = []
    auto = 0
    try:
        parsed = list(pystring.Formatter().parse(fmt.args[0]))
    except ValueError:
        I.raise_exc("ValueError", "format")
    for lit, field, spec, conv in parsed:
        out.append(t.string(lit))
        if field is None:
            continue
        import _string

        first, rest = _string.formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                I.raise_exc("IndexError", "Replacement index out of range")
            v = args[first]
        else:
            if first not in kwargs:
                I.raise_exc("KeyError", str(first))
            v = kwargs[first]
        for is_attr, name in rest:
            if is_attr:
                v = I.get_attr(v, name)
            else:
                v = get_item(I, v, q(name) if isinstance(name, int) else t.string(name))
        if conv == "r":
            v = repr_value(I, v)
        elif conv == "s":
            v = str_value(I, v)
        if spec:
            r = format_value(I, v, t.string(spec))
        else:
            r = str_value(I, v)
        if isinstance(r, Phi) or not isinstance(r, T):
            return r if isinstance(r, Opq) else I.opq("format")
        out.append(r)
    return t.cat(*out)


def path_term(I, v):
    v = I.res(v)
    if isinstance(v, T):
        return v
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, NativeC) and c.kind == "path":
            return c.data
    return t.mk("opaque", "path:%d" % id(v), "str")


# ----------------------------------------------------------------------------------------------
# dispatch (handlers live in npfuncs and pyfuncs)

HANDLERS = {}
PHI_OK = set()


def handler(*names, phi=False):
    def deco(fn):
        for n in names:
            HANDLERS[n] = fn
            if phi:
                PHI_OK.add(n)
        return fn

    return deco


def call_named(I, name, args, kwargs):
    return call_builtin(I, Builtin(name), args, kwargs, None)


PURE_PREFIX = ("numpy.", "math.", "itertools.", "operator.", "functools.", "str.", "ndarray.",
               "typing.", "re.", "copy.", "warnings.", "cmath.", "string.", "textwrap.")


def call_builtin(I, f, args, kwargs, node):
    if f.fn is not None:
        return f.fn(I, args, kwargs)
    name = f.name
    h = HANDLERS.get(name)
    if h is None:
        if name.startswith("typing."):
            return f
        if not name.startswith(PURE_PREFIX):
            if any(isinstance(I.res(a), (Ref, Phi)) for a in list(args) + list(kwargs.values())):
                I.taint("call of unmodelled %s with mutable arguments" % name)
            I.effect("unknown", name, I.site())
        elif name.startswith("numpy.random"):
            I.effect("nondet", name, I.site())
        return I.opq("unmodelled %s" % name)
    if name not in PHI_OK:
        for i, a in enumerate(args):
            a = I.res(a)
            args[i] = a
            if isinstance(a, Phi):
                return I.fork_value(
                    a.c,
                    lambda: call_builtin(I, f, args[:i] + [a.a] + args[i + 1:], dict(kwargs), node),
                    lambda: call_builtin(I, f, args[:i] + [a.b] + args[i + 1:], dict(kwargs), node))
        for k, a in kwargs.items():
            a = I.res(a)
            if isinstance(a, Phi):
                ka, kb = dict(kwargs), dict(kwargs)
                ka[k], kb[k] = a.a, a.b
                return I.fork_value(a.c, lambda: call_builtin(I, f, list(args), ka, node),
                                    lambda: call_builtin(I, f, list(args), kb, node))
    return h(I, args, kwargs)


def call_starseq(I, f, seq):
    f = I.res(f)
    if isinstance(f, Builtin) and f.name in ("max", "min", "itertools.chain"):
        if f.name == "itertools.chain":
            return call_named(I, "itertools.chain.from_iterable", [SeqV(seq)], {})
        return call_named(I, f.name, [SeqV(seq, "gen")], {})
    if isinstance(f, Builtin) and f.name == "zip":
        return I.opq("zip of unknown arity")
    return I.opq("call with unknown argument list")


def spec(names, required=0):
    """Bind positional/keyword arguments of a modelled function to names."""
    ns = names.split()

    def deco(fn):
        def g(I, args, kwargs):
            vals = dict.fromkeys(ns)
            if len(args) > len(ns):
                I.raise_exc("TypeError", "too many arguments")
            for n, a in zip(ns, args):
                vals[n] = a
            for k, v in kwargs.items():
                if k not in vals:
                    return I.opq("argument %s" % k)
                vals[k] = v
            for n in ns[:required]:
                if vals[n] is None:
                    I.raise_exc("TypeError", "missing argument %s" % n)
            return fn(I, **vals)

        g.__name__ = fn.__name__
        return g

    return deco


def const_int(I, v, default=None):
    if v is None:
        return default
    v = I.res(v)
    if isinstance(v, T):
        v = I.simp(v)
        if v.op == "q" and v.args[0].denominator == 1:
            return int(v.args[0])
    return None


from . import npfuncs, pyfuncs  # noqa: E402,F401
from .pyfuncs import builtin_name, freeze, module_attr, value_attr  # noqa: E402,F401
