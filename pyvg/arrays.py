"""Array core: coercion, broadcasting, indexing, views and stores."""

from . import terms as t
from .terms import FALSE, NONE, ONE, T, TRUE, ZERO, q
from .values import (Arr, ArrC, Builtin, CSeq, DictC, ELLIPSIS, ESeq, FSeq, ISeq, ListC, LoopSeq, Opq,
                     Phi, Ref, Seq, SeqV, SetC, SliceV, Tup, concat, flat_arr, gate)

# integer types that wrap around: (bits, signed)
NARROW = {"uint8": (8, False), "int8": (8, True), "uint16": (16, False), "int16": (16, True),
          "uint32": (32, False), "uint64": (64, False)}
RANK = {"bool": 0, "uint8": 0.1, "int8": 0.2, "uint16": 0.3, "int16": 0.4, "uint32": 0.5, "uint64": 0.6, "int": 1,
        "num": 1.5, "float32": 1.9, "float": 2, "complex": 3, "str": 5, "object": 6}


def kind_rank(d):
    return RANK.get(d, 6)


def promote(a, b):
    if a == b:
        return a
    return a if kind_rank(a) >= kind_rank(b) else b


# whole terms that were converted to floating point somewhere: their type is no longer known from the term
FLOATED = set()


def floated(x):
    if isinstance(x, T):
        if x.op == "ite":
            floated(x.args[1])
            floated(x.args[2])
        elif x.op in ("sym", "nth", "bit"):
            FLOATED.add(x)
        elif x.op == "elem":
            FLOATED.add(x.args[0])
    elif isinstance(x, Phi):
        floated(x.a)
        floated(x.b)
    return x


def is_floated(x):
    return (x.args[0] if x.op == "elem" else x) in FLOATED


def taken(a, x):
    """Element x taken out of array a."""
    return x if a.dtype in ("int", "bool") else floated(x)


def elem_dtype(x):
    """dtype of an array holding the scalar x."""
    if isinstance(x, T):
        if x.op == "ite":
            return promote(elem_dtype(x.args[1]), elem_dtype(x.args[2]))
        if t.is_bool(x):
            return "bool"
        if t.is_string(x):
            return "str"
        if x is NONE:
            return "object"
        if x.op == "q":
            return "num" if x.args[0].denominator == 1 else "float"
        if t.is_int(x):
            return "int" if x.op in ("sym", "elem", "nth", "bit") and not is_floated(x) else "num"
        p = t.to_poly(x)
        if any(dict(m).get(t.IMAG, 0) for m in p):
            return "complex"
        return "float"
    if isinstance(x, Phi):
        return promote(elem_dtype(x.a), elem_dtype(x.b))
    if isinstance(x, Opq):
        return "float"
    return "object"


def memo_fn(fn):
    cache = {}

    def g(ix):
        r = cache.get(ix)
        if r is None:
            r = cache[ix] = fn(ix)
        return r

    return g


def lift(fn):
    """Element function over terms that propagates opaque and gated elements."""

    def g(*xs):
        for k, x in enumerate(xs):
            if isinstance(x, Opq):
                return x
            if isinstance(x, Phi):
                a = g(*[x.a if j == k else y for j, y in enumerate(xs)])
                b = g(*[x.b if j == k else y for j, y in enumerate(xs)])
                return gate(x.c, a, b)
            if not isinstance(x, T):
                return Opq("non-numeric element")
        return fn(*xs)

    return g


# ----------------------------------------------------------------------------------------------
# coercion


def to_arr(I, v):
    """Arr for an array-like value; a T scalar gives a 0-d Arr; None when not understood."""
    v = I.res(v)
    if isinstance(v, T):
        if v.op == "arrsym":
            return None
        return Arr((), elem_dtype(v), lambda ix: v, flat=[v])
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ArrC):
            return I.arr(v)
        if isinstance(c, ListC):
            return seq_to_arr(I, c.seq)
        return None
    if isinstance(v, Tup):
        return seq_to_arr(I, ESeq(v.items))
    if isinstance(v, SeqV):
        if v.kind in ("range", "tuple"):
            return seq_to_arr(I, v.seq)
        return None
    if isinstance(v, Phi):
        a, b = to_arr(I, v.a), to_arr(I, v.b)
        if a is None or b is None or a.ndim != b.ndim:
            return None
        from .interp import merge_arr

        return merge_arr(v.c, a, b, promote)
    return None


def seq_to_arr(I, sq):
    if sq.items is not None:
        subs = [to_arr(I, x) for x in sq.items]
        if any(s is None for s in subs):
            if all(s is not None or isinstance(I.res(x), (Opq, Phi))
                   for s, x in zip(subs, sq.items)):
                return flat_arr(sq.items, "float")
            return None
        if not subs:
            return flat_arr([], "float")
        nd = {s.ndim for s in subs}
        if len(nd) > 1:
            return None
        dt = subs[0].dtype
        for s in subs[1:]:
            dt = promote(dt, s.dtype)
        lit = getattr(sq, "lit", None)
        if lit and dt == "num":
            dt = lit
        if subs[0].ndim == 0:
            return flat_arr([s.flat[0] for s in subs], dt)
        sh = subs[0].shape
        for s in subs[1:]:
            for x, y in zip(sh, s.shape):
                if x is not y and I.decide(t.eq(x, y)) is not TRUE:
                    return None
        n = q(len(subs))

        def fn(ix):
            i = ix[0]
            if i.op == "q":
                return subs[int(i.args[0])].get(ix[1:])
            r = subs[-1].get(ix[1:])
            for k in range(len(subs) - 2, -1, -1):
                r = gate(t.eq(i, q(k)), subs[k].get(ix[1:]), r)
            return r

        return Arr((n,) + sh, dt, memo_fn(fn))
    if isinstance(sq, LoopSeq):
        return None
    if isinstance(sq, CSeq):
        parts = [seq_to_arr(I, p) for p in sq.parts]
        if any(p is None or p.ndim != 1 for p in parts):
            if all(p is not None for p in parts) and parts and all(
                    p.ndim == parts[0].ndim for p in parts):
                return concat_arrs(I, parts, 0)
            return None
        dt = parts[0].dtype
        for p in parts[1:]:
            dt = promote(dt, p.dtype)
        return Arr((sq.n,), dt, memo_fn(lambda ix: sq.get(ix[0])))
    if isinstance(sq, ISeq):
        a, b = seq_to_arr(I, sq.a), seq_to_arr(I, sq.b)
        if a is None or b is None:
            return None
        if a.ndim != b.ndim:
            return None
        from .interp import merge_arr

        return merge_arr(sq.c, a, b, promote)
    v = t.fresh("e", "int", sign="nonneg")
    st = I.st
    I.st = st.fork(t.lt(v, sq.n))
    x = I.res(sq.get(v))
    heap = I.st.heap
    I.st = st
    st.heap = heap
    if isinstance(x, (T, Opq, Phi)):
        if isinstance(x, Phi) and not scalarish(x):
            return None
        if isinstance(x, T) and x.op == "arrsym":
            return None
        return Arr((sq.n,), elem_dtype(x), memo_fn(lambda ix: sq.get(ix[0])))
    inner = to_arr(I, x)
    if inner is None or any(t.depends(d, v) for d in inner.shape):
        return None

    def fn2(ix):
        a = to_arr(I, sq.get(ix[0]))
        return a.get(ix[1:]) if a is not None else Opq("nested sequence")

    return Arr((sq.n,) + inner.shape, inner.dtype, memo_fn(fn2))


def scalarish(x):
    if isinstance(x, Phi):
        return scalarish(x.a) and scalarish(x.b)
    return isinstance(x, (T, Opq))


# ----------------------------------------------------------------------------------------------
# casts


def cast_elem(x, frm, to):
    if not isinstance(x, T):
        if isinstance(x, Phi):
            return gate(x.c, cast_elem(x.a, frm, to), cast_elem(x.b, frm, to))
        return x
    if to in ("float", "num", "complex"):
        if t.is_bool(x):
            return t.as_num(x)
        if frm == "complex" and to != "complex":
            return t.real(x)
        if t.is_string(x):
            return Opq("string to number")
        return x
    if to == "float32":
        if t.is_bool(x):
            return t.as_num(x)
        if x.op == "q" and x.args[0].denominator == 1 and abs(x.args[0]) < 2 ** 24:
            return x
        return t.mk("f32", x)
    if to == "int":
        if t.is_bool(x):
            return t.as_num(x)
        if t.is_string(x):
            return str_to_int(x)
        if frm == "int" or t.is_int(x):
            return x
        return t.trunc(x)
    if to in NARROW:
        x = cast_elem(x, frm, "int")
        return wrap(x, to) if isinstance(x, T) and frm != to else x
    if to == "bool":
        return x if t.is_bool(x) else t.ne(x, ZERO)
    if to == "str":
        return t.tostr(x)
    return x


def wrap(x, to):
    """Value of the integer x stored in a narrow type."""
    bits, signed = NARROW[to]
    if x.op == "q":
        v = int(x.args[0]) % 2 ** bits
        return q(v - 2 ** bits if signed and v >= 2 ** (bits - 1) else v)
    if x.op == "bit":
        return x
    if bits >= 32:
        return t.ite(t.lt(x, ZERO), t.add(x, q(2 ** bits)), x)
    if signed:
        half = q(2 ** (bits - 1))
        return t.sub(t.mod(t.add(x, half), q(2 ** bits)), half)
    return t.mod(x, q(2 ** bits))


def str_to_int(x):
    if x.op == "str":
        try:
            return q(int(x.args[0]))
        except ValueError:
            return Opq("int of text")
    if x.op == "charat" and x.args[0].op == "binrepr":
        k = x.args[0].args[0]
        return t.bit(k, t.sub(t.sub(bitlen(k), ONE), x.args[1]))
    if x.op == "ite":
        a, b = str_to_int(x.args[1]), str_to_int(x.args[2])
        return gate(x.args[0], a, b)
    return Opq("int of text")


def bitlen(k):
    if k.op == "q":
        return q(max(1, int(k.args[0]).bit_length()))
    return t.add(t.floor(t.log2(k)), ONE)


def cast_arr(a, to):
    if a.dtype == to or to is None:
        return a
    if to == "object":
        return a
    frm = a.dtype
    if a.flat is not None:
        return Arr(a.shape, to, None, flat=[cast_elem(x, frm, to) for x in a.flat])
    return Arr(a.shape, to, memo_fn(lambda ix: cast_elem(a.get(ix), frm, to)))


DTYPES = {
    "float": "float", "numpy.float": "float", "numpy.float64": "float", "numpy.double": "float",
    "numpy.float_": "float", "numpy.longdouble": "float", "numpy.float128": "float",
    "numpy.floating": "float", "numpy.number": "float",
    "numpy.float32": "float32", "numpy.single": "float32", "numpy.float16": "float32",
    "numpy.half": "float32",
    "int": "int", "numpy.int": "int", "numpy.int64": "int", "numpy.int32": "int",
    "numpy.int_": "int", "numpy.intp": "int", "numpy.uint": "uint64", "numpy.uint64": "uint64",
    "numpy.int16": "int16", "numpy.int8": "int8", "numpy.uint8": "uint8", "numpy.uint32": "uint32",
    "numpy.uint16": "uint16", "numpy.byte": "int8", "numpy.ubyte": "uint8", "numpy.short": "int16",
    "numpy.integer": "int",
    "bool": "bool", "numpy.bool": "bool", "numpy.bool_": "bool",
    "complex": "complex", "numpy.complex": "complex", "numpy.complex128": "complex",
    "numpy.complex_": "complex",
    "str": "str", "numpy.str": "str", "numpy.str_": "str", "object": "object",
    "numpy.object": "object", "numpy.object_": "object",
}
DTYPE_STR = {"float": "float", "float64": "float", "f8": "float", "d": "float", "<f8": "float",
             "float32": "float32", "f4": "float32", "int": "int", "int64": "int", "i8": "int",
             "int32": "int", "i4": "int", "int16": "int16", "i2": "int16", "int8": "int8", "i1": "int8", "uint8": "uint8",
             "u1": "uint8", "uint16": "uint16", "u2": "uint16", "uint32": "uint32", "uint64": "uint64", "bool": "bool", "complex": "complex", "complex128": "complex",
             "str": "str", "U": "str", "object": "object"}


def dtype_of(I, v):
    """Name of a dtype argument; None for default; Opq when unknown."""
    if v is None:
        return None
    v = I.res(v)
    if v is NONE:
        return None
    if isinstance(v, Builtin):
        if v.name.startswith("dtype:"):
            return v.name[6:]
        return DTYPES.get(v.name, Opq("dtype"))
    if isinstance(v, T) and v.op == "str":
        return DTYPE_STR.get(v.args[0], Opq("dtype"))
    from .values import Cls

    if isinstance(v, Cls) and v.name == "object":
        return "object"
    return Opq("dtype")


# ----------------------------------------------------------------------------------------------
# broadcasting


def bshape(I, shapes):
    """Broadcast shape, or None when the shapes cannot be related."""
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = ONE
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            e = s[j]
            if e is ONE or e is d:
                continue
            if d is ONE:
                d = e
                continue
            r = I.decide(t.eq(d, e))
            if r is TRUE:
                if e.op == "q":
                    d = e
                continue
            es, ds = I.simp(e), I.simp(d)
            if es is ds:
                d = ds
                continue
            if es is ONE:
                continue
            if ds is ONE:
                d = es
                continue
            if r is FALSE and not (_maybe_one(I, e) or _maybe_one(I, d)):
                I.raise_exc("ValueError", "operands could not be broadcast together")
            return None
        out.append(d)
    return tuple(out)


def _maybe_one(I, d):
    return I.decide(t.eq(d, ONE)) is not FALSE


def bindex(a, shape, ix):
    off = len(shape) - a.ndim
    return tuple(ZERO if a.shape[j] is ONE else ix[off + j] for j in range(a.ndim))


def ew(I, fn, vals, dtype=None):
    """Elementwise application with broadcasting.  dtype: name, or None for promotion."""
    vals = [I.res(v) for v in vals]
    for v in vals:
        if isinstance(v, Opq):
            return v
    f = lift(fn)
    if all(scalarish(v) for v in vals):
        return f(*vals)
    arrs = [to_arr(I, v) for v in vals]
    if any(a is None for a in arrs):
        return I.opq("elementwise operation on %s" % (vals,))
    shape = bshape(I, [a.shape for a in arrs])
    if shape is None:
        return I.opq("broadcast of unrelated shapes")
    if dtype is None:
        dt = arrs[0].dtype
        for a in arrs[1:]:
            dt = promote(dt, a.dtype)
    elif callable(dtype):
        dt = dtype([a.dtype for a in arrs])
    else:
        dt = dtype
    if dt in NARROW or dt not in ("bool", "str", "object") and any(a.dtype in NARROW for a in arrs) and not all(
            a.dtype in ("float", "complex") and a.ndim or a.dtype in NARROW for a in arrs):
        f = lambda *xs: Opq("arithmetic of narrow integers")
    if all(a.flat is not None and (a.ndim == 0 or (a.ndim == len(shape) and all(
            x is y for x, y in zip(a.shape, shape)))) for a in arrs):
        n = max(len(a.flat) for a in arrs if a.ndim) if any(a.ndim for a in arrs) else 1
        flat = [f(*[a.flat[0] if a.ndim == 0 else a.flat[k] for a in arrs]) for k in range(n)]
        return I.mk_arr(Arr(shape, dt, None, flat=flat))
    return I.mk_arr(Arr(shape, dt, memo_fn(
        lambda ix: f(*[a.get(bindex(a, shape, ix)) for a in arrs]))))


# ----------------------------------------------------------------------------------------------
# joining


def concat_arrs(I, arrs, axis):
    """Concatenate along an axis; None when shapes are unrelated."""
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        I.raise_exc("ValueError", "all the input arrays must have same number of dimensions")
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        I.raise_exc("AxisError" if False else "ValueError", "axis out of range")
    dt = arrs[0].dtype
    for a in arrs[1:]:
        dt = promote(dt, a.dtype)
    for j in range(nd):
        if j == axis:
            continue
        for a in arrs[1:]:
            x, y = arrs[0].shape[j], a.shape[j]
            if x is y:
                continue
            r = I.decide(t.eq(x, y))
            if r is FALSE:
                I.raise_exc("ValueError", "concatenation dimensions differ")
            if r is None and I.simp(x) is not I.simp(y):
                return None
    arrs = [cast_arr(a, dt) for a in arrs]
    if nd == 1 and all(a.flat is not None for a in arrs):
        out = []
        for a in arrs:
            out.extend(a.flat)
        return flat_arr(out, dt)
    total = t.add(ZERO, *[a.shape[axis] for a in arrs])
    shape = arrs[0].shape[:axis] + (total,) + arrs[0].shape[axis + 1:]
    if nd == 1:
        seq = concat([ESeq(a.flat) if a.flat is not None else
                      FSeq(a.shape[0], lambda i, a=a: a.get((i,))) for a in arrs])
        return Arr(shape, dt, memo_fn(lambda ix: seq.get(ix[0])))

    def fn(ix):
        i = ix[axis]
        off = ZERO
        parts = []
        for a in arrs:
            end = t.add(off, a.shape[axis])
            parts.append((off, end, a))
            off = end
        r = None
        for start, end, a in reversed(parts):
            c = t.lt(i, end)
            if c is FALSE or t.ge(i, start) is FALSE:
                continue
            v = a.get(ix[:axis] + (t.sub(i, start),) + ix[axis + 1:])
            r = v if r is None else gate(c, v, r)
        return r if r is not None else Opq("index out of range")

    return Arr(shape, dt, memo_fn(fn))


# ----------------------------------------------------------------------------------------------
# index arithmetic


def norm_index(I, k, n, what="index"):
    """Non-negative index term; records IndexError exits."""
    k = I.simp(t.as_num(k))
    if not t.is_int(k) and k.op == "q":
        I.raise_exc("IndexError", "only integers are valid indices")
    neg = I.decide(t.lt(k, ZERO))
    if neg is TRUE:
        r = t.add(k, n)
        bad = t.lt(r, ZERO)
    elif neg is FALSE:
        r = k
        bad = t.ge(k, n)
    else:
        r = t.ite(t.lt(k, ZERO), t.add(k, n), k)
        bad = t.lor(t.ge(k, n), t.lt(t.add(k, n), ZERO))
    d = I.decide(bad)
    if d is TRUE:
        I.raise_exc("IndexError", "%s out of range" % what)
    if d is None:
        I.raise_exc("IndexError", "%s out of range" % what, bad)
    return I.simp(r)


def clamp(I, x, n):
    """Slice bound normalised into [0, n]."""
    x = I.simp(x)
    neg = I.decide(t.lt(x, ZERO))
    if neg is TRUE:
        y = I.simp(t.add(x, n))
        d = I.decide(t.lt(y, ZERO))
        return ZERO if d is TRUE else (y if d is FALSE else t.vmax(y, ZERO))
    if neg is FALSE:
        d = I.decide(t.le(x, n))
        return x if d is TRUE else (n if d is FALSE else t.vmin(x, n))
    return t.ite(t.lt(x, ZERO), t.vmax(t.add(x, n), ZERO), t.vmin(x, n))


def slice_range(I, s, n):
    """(start, length, step) of a slice over a dimension of length n; None if unsupported."""
    step = I.res(s.step)
    lo, hi = I.res(s.lo), I.res(s.hi)
    if step is NONE:
        step = ONE
    if not (isinstance(step, T) and step.op == "q" and isinstance(lo, T) and isinstance(hi, T)):
        return None
    st = int(step.args[0])
    for b in (lo, hi):
        if b is not NONE and not t.is_int(b):
            if b.op == "q":
                I.raise_exc("TypeError", "slice indices must be integers")
            return None
    if st > 0:
        a = ZERO if lo is NONE else clamp(I, lo, n)
        b = n if hi is NONE else clamp(I, hi, n)
        d = I.simp(t.sub(b, a))
        if st != 1:
            d = I.simp(t.ceil(t.div(d, q(st))))
        r = I.decide(t.ge(d, ZERO))
        if r is FALSE:
            d = ZERO
        elif r is None:
            d = t.vmax(d, ZERO)
        return a, d, st
    if st < 0:
        a = t.sub(n, ONE) if lo is NONE else t.vmin(clamp(I, lo, n), t.sub(n, ONE))
        b = q(-1) if hi is NONE else clamp(I, hi, n)
        d = I.simp(t.ceil(t.div(t.sub(a, b), q(-st))))
        r = I.decide(t.ge(d, ZERO))
        if r is FALSE:
            d = ZERO
        elif r is None:
            d = t.vmax(d, ZERO)
        return I.simp(a), d, st
    I.raise_exc("ValueError", "slice step cannot be zero")


def expand_key(I, key, nd):
    """Flatten an index into one entry per dimension (None entries are new axes)."""
    ks = list(key.items) if isinstance(key, Tup) else [key]
    ks = [I.res(k) for k in ks]
    used = 0
    for k in ks:
        if k is NONE:
            continue
        if k is ELLIPSIS:
            continue
        if isinstance(k, Ref) and I.is_arr(k) and I.arr(k).dtype == "bool":
            used += I.arr(k).ndim
        else:
            used += 1
    full = SliceV(NONE, NONE, NONE)
    if any(k is ELLIPSIS for k in ks):
        i = next(j for j, k in enumerate(ks) if k is ELLIPSIS)
        ks[i:i + 1] = [full] * (nd - used)
    else:
        ks += [full] * (nd - used)
    if used > nd:
        I.raise_exc("IndexError", "too many indices for array")
    return ks


def basic_view(I, shape, ks):
    """Describe basic indexing: (view shape, to_base, inside, inv) or None."""
    vshape = []
    dims = []  # per base dim: ("fix", e) or ("sl", start, len, step, view axis)
    bd = 0
    for k in ks:
        if k is NONE:
            vshape.append(ONE)
            continue
        n = shape[bd]
        if isinstance(k, SliceV):
            r = slice_range(I, k, n)
            if r is None:
                return None
            dims.append(("sl",) + r + (len(vshape),))
            vshape.append(r[1])
        else:
            if not isinstance(k, T):
                return None
            if not t.is_int(k) and not (k.op == "opaque"):
                if t.is_bool(k) or not t.is_num(k):
                    return None
                if k.op != "q":
                    return None
            dims.append(("fix", norm_index(I, k, n)))
        bd += 1

    def to_base(ix):
        out = []
        for d in dims:
            if d[0] == "fix":
                out.append(d[1])
            else:
                _, a, ln, st, ax = d
                out.append(t.add(a, t.mul(q(st), ix[ax])))
        return tuple(out)

    def inside(b):
        cs = []
        for d, i, n in zip(dims, b, shape):
            if d[0] == "fix":
                cs.append(t.eq(i, d[1]))
            else:
                _, a, ln, st, ax = d
                if st == 1:
                    if a is not ZERO:
                        cs.append(t.ge(i, a))
                    if t.add(a, ln) is not n:
                        cs.append(t.lt(i, t.add(a, ln)))
                else:
                    x = t.div(t.sub(i, a), q(st))
                    cs += [t.ge(x, ZERO), t.lt(x, ln), t.eq(x, t.floor(x))]
        return t.land(*cs)

    def inv(b):
        out = [ZERO] * len(vshape)
        for d, i in zip(dims, b):
            if d[0] == "sl":
                _, a, ln, st, ax = d
                x = t.div(t.sub(i, a), q(st))
                out[ax] = x if abs(st) == 1 else t.floor(x)
        return tuple(out)

    return tuple(vshape), to_base, inside, inv


def lam_elem(I, fn):
    """Lambda from an element function; None when the element is not a term."""
    v = t.fresh("i", "int", sign="nonneg")
    b = fn(v)
    if not isinstance(b, T):
        return None
    return t.abstract(v, b)


def decided_bits(I, mask):
    """The truth values of a short mask, when all are decided."""
    if mask.flat is not None:
        bits = mask.flat
    elif mask.ndim == 1 and mask.shape[0].op == "q" and mask.shape[0].args[0] <= 64:
        bits = [mask.get((q(k),)) for k in range(int(mask.shape[0].args[0]))]
    else:
        return None
    ds = []
    for m in bits:
        d = I.decide(I.simp(m)) if isinstance(m, T) else None
        if d is None:
            return None
        ds.append(d)
    return ds


def compress(I, a, mask):
    """a[mask] for 1-d arrays."""
    n = mask.shape[0]
    ds = decided_bits(I, mask)
    if ds is not None and a.ndim == 1:
        return flat_arr([a.get((q(k),)) for k, d in enumerate(ds) if d is TRUE], a.dtype)
    lam = lam_elem(I, lambda i: mask.get((i,)))
    if lam is None:
        return None
    pred = lam
    cnt = count_lam(n, lam)
    cnt = I.simp(cnt)
    return Arr((cnt,) + a.shape[1:], a.dtype,
               memo_fn(lambda ix: a.get((t.nth(n, pred, ix[0]),) + ix[1:])))


def count_lam(n, lam):
    return t.vsum(n, t.relam(lam, lambda b: t.as_num(b)))


def where_indices(I, mask):
    """Indices where a 1-d boolean array holds."""
    n = mask.shape[0]
    ds = decided_bits(I, mask)
    if ds is not None:
        return flat_arr([q(k) for k, d in enumerate(ds) if d is TRUE], "int")
    lam = lam_elem(I, lambda i: mask.get((i,)))
    if lam is None:
        return None
    return Arr((I.simp(count_lam(n, lam)),), "int", memo_fn(lambda ix: t.nth(n, lam, ix[0])),
               mask=(n, lambda i: mask.get((i,))))


def as_bool_arr(a):
    if a.dtype == "bool":
        return a
    return cast_arr(a, "bool")


def arr_get(I, ref, key):
    """ref[key] for an array reference."""
    a = I.arr(ref)
    ks = expand_key(I, key, a.ndim)
    if all(isinstance(k, SliceV) or k is NONE or (isinstance(k, T)) for k in ks):
        if any(isinstance(k, T) and t.is_bool(k) for k in ks):
            return I.opq("boolean scalar index")
        v = basic_view(I, a.shape, ks)
        if v is None:
            return I.opq("array index")
        shape, to_base, inside, inv = v
        if not shape:
            return taken(a, a.get(to_base(())))
        return I.new(ArrC(None, (ref, shape, to_base, inside, inv)))
    # fancy
    idx = [(j, to_arr(I, k)) for j, k in enumerate(ks)
           if not (isinstance(k, (SliceV, T)))]
    if any(x is None for _, x in idx):
        return I.opq("array index")
    if len(idx) == 1:
        j, m = idx[0]
        others = [k for i, k in enumerate(ks) if i != j]
        if any(k is NONE for k in ks):
            return I.opq("array index")
        if m.dtype == "bool":
            if m.ndim == a.ndim and a.ndim > 1:
                return I.opq("multi-dimensional mask")
            if m.ndim != 1:
                return I.opq("mask")
            if not same_dim(I, m.shape[0], a.shape[j]):
                return I.opq("mask length")
            if j == 0 and all(isinstance(k, SliceV) and k.lo is NONE and k.hi is NONE
                              and k.step is NONE for k in others):
                r = compress(I, a, m)
                return I.mk_arr(r) if r is not None else I.opq("mask")
            idxa = where_indices(I, m)
            if idxa is None:
                return I.opq("mask")
            m = idxa
        # integer array on axis j, basic elsewhere
        pre = basic_view(I, tuple(d for i, d in enumerate(a.shape) if i != j), others)
        if pre is None:
            return I.opq("array index")
        pshape, pto, _, _ = pre
        npre = 0
        for i, k in enumerate(ks):
            if i >= j:
                break
            if isinstance(k, SliceV):
                npre += 1
        n = a.shape[j]
        shape = pshape[:npre] + m.shape + pshape[npre:]
        if m.flat is not None:
            mm = [x if not isinstance(x, T) else norm_index(I, x, n) for x in m.flat]
            m = Arr(m.shape, "int", None, flat=mm)
            conv = lambda x: x
        else:
            conv = lambda x: t.ite(t.lt(x, ZERO), t.add(x, n), x) if isinstance(x, T) and not nonneg(
                I, m) else x

        def fn(ix):
            mi = ix[npre:npre + m.ndim]
            rest = ix[:npre] + ix[npre + m.ndim:]
            b = list(pto(rest))
            e = m.get(mi)
            if not isinstance(e, T):
                return Opq("index")
            b.insert(j, conv(e))
            return a.get(tuple(b))

        return I.mk_arr(Arr(shape, a.dtype, memo_fn(fn)))
    if len(idx) == a.ndim and all(m.dtype != "bool" for _, m in idx):
        shape = bshape(I, [m.shape for _, m in idx])
        if shape is None:
            return I.opq("array index")
        ms = [m for _, m in idx]
        return I.mk_arr(Arr(shape, a.dtype, memo_fn(
            lambda ix: a.get(tuple(m.get(bindex(m, shape, ix)) for m in ms)))))
    return I.opq("array index")


def nonneg(I, m):
    v = t.fresh("m", "int", sign="nonneg")
    x = m.get((v,) * m.ndim)
    return isinstance(x, T) and I.st.facts.add(t.lt(v, m.shape[0])).decide(t.ge(x, ZERO)) is TRUE


def same_dim(I, a, b):
    return a is b or I.simp(a) is I.simp(b) or I.decide(t.eq(a, b)) is TRUE


# -- stores --------------------------------------------------------------------------------------


def write(I, ref, inside, newval, dtype_val):
    """Replace elements of the array behind ref where inside(index) holds by newval(index)."""
    c = I.cell(ref)
    if c.view is not None:
        base, shape, to_base, vin, vinv = c.view

        def ins(b):
            return t.land(vin(b), inside(vinv(b)))

        write(I, base, ins, lambda b: newval(vinv(b)), dtype_val)
        return
    a = c.arr
    dt = a.dtype

    def val(ix):
        return cast_elem(newval(ix), dtype_val, dt) if dt != "num" else newval(ix)

    if dt == "num" and kind_rank(dtype_val) > kind_rank("num"):
        dt2 = dtype_val
    else:
        dt2 = dt
    if a.flat is not None:
        from .values import indices

        flat = []
        for ix, old in zip(indices(a.shape), a.flat):
            cnd = inside(ix)
            if cnd is FALSE:
                flat.append(old)
            else:
                cnd = I.decide(cnd) or cnd
                flat.append(old if cnd is FALSE else gate(cnd, val(ix), old))
        I.put(ref, ArrC(Arr(a.shape, dt2, None, flat=flat)))
        return

    def fn(ix):
        cnd = inside(ix)
        if cnd is FALSE:
            return a.get(ix)
        if cnd is TRUE:
            return val(ix)
        return gate(cnd, val(ix), a.get(ix))

    I.put(ref, ArrC(Arr(a.shape, dt2, memo_fn(fn))))


def root_ref(I, ref):
    c = I.cell(ref)
    while isinstance(c, ArrC) and c.view is not None:
        ref = c.view[0]
        c = I.cell(ref)
    return ref


def store_all(I, ref, arr):
    write(I, ref, lambda ix: TRUE, lambda ix: arr.get(ix), arr.dtype)


def arr_set(I, ref, key, v):
    a = I.arr(ref)
    ks = expand_key(I, key, a.ndim)
    v = I.res(v)
    if isinstance(v, Opq):
        va = Arr((), "float", lambda ix: v, flat=[v])
    else:
        va = to_arr(I, v)
        if va is None:
            if isinstance(v, Phi) and scalarish(v):
                va = Arr((), elem_dtype(v), lambda ix: v, flat=[v])
            else:
                o = I.opq("stored value")
                va = Arr((), "float", lambda ix: o, flat=[o])
    # snapshot: the value may be a view of the array being written
    if va.flat is None:
        snap_fn = va.fn
        va = Arr(va.shape, va.dtype, snap_fn)
    if all(isinstance(k, SliceV) or k is NONE or isinstance(k, T) for k in ks):
        view = basic_view(I, a.shape, ks)
        if view is None:
            return havoc_arr(I, ref, "array store")
        shape, to_base, inside, inv = view
        if va.ndim > len(shape):
            lead = va.shape[: va.ndim - len(shape)]
            if any(d is not ONE for d in lead):
                I.raise_exc("ValueError", "could not broadcast input array")
            nl = len(lead)
            va0 = va
            va = Arr(va0.shape[nl:], va0.dtype, lambda ix: va0.get((ZERO,) * nl + ix))
        for d1, d2 in zip(reversed(va.shape), reversed(shape)):
            if d1 is ONE or same_dim(I, d1, d2):
                continue
            bad = I.decide(t.eq(d1, d2))
            if bad is FALSE and I.decide(t.eq(d1, ONE)) is FALSE:
                I.raise_exc("ValueError", "could not broadcast input array into shape")
            return havoc_arr(I, ref, "store of unrelated shape")
        write(I, ref, inside, lambda b: va.get(bindex(va, shape, inv(b))), va.dtype)
        return
    if len(ks) == 1:
        k = ks[0]
        m = to_arr(I, k)
        if m is None:
            return havoc_arr(I, ref, "array store")
        if m.dtype == "bool" and m.ndim == 1:
            if not same_dim(I, m.shape[0], a.shape[0]):
                return havoc_arr(I, ref, "mask store")
            if va.ndim == 0 or va.shape == (ONE,):
                write(I, ref, lambda b: _b(m.get(b)), lambda b: va.get((ZERO,) * va.ndim), va.dtype)
                return
            lam = lam_elem(I, lambda i: m.get((i,)))
            if lam is None:
                return havoc_arr(I, ref, "mask store")

            def rank(b):
                return count_lam(b[0], lam)

            write(I, ref, lambda b: _b(m.get(b)), lambda b: va.get((rank(b),)), va.dtype)
            return
        if m.flat is not None and m.ndim == 1:
            for j, e in enumerate(m.flat):
                if not isinstance(e, T):
                    return havoc_arr(I, ref, "array store")
                arr_set(I, ref, e, va.get(()) if va.ndim == 0 else va.get(
                    (ZERO if va.shape[0] is ONE else q(j),)))
            return
        if m.ndim == 1 and m.mask is not None:
            n, pred = m.mask
            if va.ndim == 0:
                write(I, ref, lambda b: _b(pred(b[0])), lambda b: va.get(()), va.dtype)
                return
    return havoc_arr(I, ref, "array store")


def _b(x):
    if isinstance(x, T):
        return x
    return t.mk("opaque", "mask:%d" % id(x), "bool")


def havoc_arr(I, ref, why):
    o = I.opq(why)
    r = root_ref(I, ref)
    a = I.arr(r)
    I.put(r, ArrC(Arr(a.shape, a.dtype, lambda ix: o,
                      flat=[o] * len(a.flat) if a.flat is not None else None)))
