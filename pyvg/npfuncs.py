"""Models of numpy functions and ndarray methods."""

from fractions import Fraction

from . import terms as t
from .arrays import (NARROW, arr_get, as_bool_arr, bindex, bitlen, bshape, cast_arr, cast_elem, compress,
                     concat_arrs, count_lam, dtype_of, elem_dtype, ew, expand_key, kind_rank,
                     lam_elem, lift, memo_fn, norm_index, promote, same_dim, scalarish, store_all,
                     to_arr, where_indices, write)
from .npmodel import (ARITH, CMP, _cond, binop, call_named, const_int, float_dt, handler, is_numeric_scalar, num_dt,
                      s_and, s_or, s_pow, s_xor, scalar_cmp, spec)
from .terms import FALSE, NONE, ONE, T, TRUE, ZERO, q
from .values import (Arr, ArrC, Builtin, DictC, ESeq, FSeq, ListC, NativeC, Opq, Phi, Ref, SeqV, SetC,
                     Tup, concat, flat_arr, gate)


def N(*names):
    return handler(*["numpy." + n for n in names])


def need(I, v):
    """Arr of an argument or an Opq."""
    v = I.res(v)
    if isinstance(v, Opq):
        return v
    a = to_arr(I, v)
    if a is None:
        if isinstance(v, Phi) and scalarish(v):
            return Arr((), elem_dtype(v), lambda ix: v, flat=[v])
        return I.opq("array argument %r" % (v,))
    return a


def is_none(I, v):
    return v is None or I.res(v) is NONE


# -- unary / binary ufuncs -----------------------------------------------------------------------

def n_(f):
    return lambda x: f(t.as_num(x))


def s_isclose(rtol, atol):
    def f(a, b):
        return t.isclose(t.as_num(a), t.as_num(b), rtol, atol)

    return f


def s_hypot(a, b):
    return t.sqrt(t.add(t.mul(a, a), t.mul(b, b)))


def s_angle(z):
    return t.arctan2(t.imag(z), t.real(z))


def tan_(x):
    return t.div(t.sin(x), t.cos(x))


U1 = {
    "sin": (t.sin, float_dt), "cos": (t.cos, float_dt), "exp": (t.exp, float_dt),
    "tan": (tan_, float_dt),
    "sqrt": (t.sqrt, float_dt), "arccos": (t.arccos, float_dt), "arcsin": (t.arcsin, float_dt),
    "acos": (t.arccos, float_dt), "asin": (t.arcsin, float_dt), "arctan": (t.arctan, float_dt),
    "log": (t.log, float_dt), "log2": (t.log2, float_dt),
    "abs": (t.absv, None), "absolute": (t.absv, None), "fabs": (t.absv, float_dt),
    "sign": (t.sgn, None), "negative": (t.neg, None), "positive": (lambda x: x, None),
    "floor": (t.floor, float_dt), "ceil": (t.ceil, float_dt), "trunc": (t.trunc, float_dt),
    "fix": (t.trunc, float_dt), "rint": (t.rnd, float_dt),
    "square": (lambda x: t.mul(x, x), None), "reciprocal": (t.inv, float_dt),
    "deg2rad": (lambda x: t.mul(x, t.PI, q(Fraction(1, 180))), float_dt),
    "radians": (lambda x: t.mul(x, t.PI, q(Fraction(1, 180))), float_dt),
    "rad2deg": (lambda x: t.mul(x, q(180), t.inv(t.PI)), float_dt),
    "degrees": (lambda x: t.mul(x, q(180), t.inv(t.PI)), float_dt),
    "conj": (t.conj, None), "conjugate": (t.conj, None), "real": (t.real, None),
    "imag": (t.imag, None), "angle": (s_angle, float_dt), "real_if_close": (lambda x: x, None),
    "nan_to_num": (lambda x: x, None),
    "log10": (lambda x: t.div(t.log(x), t.log(q(10))), float_dt),
    "log1p": (lambda x: t.log(t.add(x, ONE)), float_dt),
    "expm1": (lambda x: t.sub(t.exp(x), ONE), float_dt),
    "exp2": (lambda x: s_pow(q(2), x), float_dt),
    "cosh": (lambda x: t.mul(t.HALF, t.add(t.exp(x), t.exp(t.neg(x)))), float_dt),
    "sinh": (lambda x: t.mul(t.HALF, t.sub(t.exp(x), t.exp(t.neg(x)))), float_dt),
    "sinc": (lambda x: t.ite(t.eq(x, ZERO), ONE, t.div(t.sin(t.mul(t.PI, x)), t.mul(t.PI, x))),
             float_dt),
    "cbrt": (lambda x: s_pow(x, q(Fraction(1, 3))), float_dt),
}
U2 = {
    "add": (t.add, num_dt), "subtract": (t.sub, num_dt), "multiply": (t.mul, num_dt),
    "divide": (t.div, float_dt), "true_divide": (t.div, float_dt),
    "floor_divide": (t.floordiv, num_dt), "mod": (t.mod, num_dt), "remainder": (t.mod, num_dt),
    "power": (s_pow, num_dt), "float_power": (s_pow, float_dt),
    "maximum": (t.vmax, num_dt), "minimum": (t.vmin, num_dt),
    "fmax": (t.vmax, num_dt), "fmin": (t.vmin, num_dt),
    "arctan2": (t.arctan2, float_dt), "hypot": (s_hypot, float_dt),
    "bitwise_and": (s_and, None), "bitwise_or": (s_or, None), "bitwise_xor": (s_xor, None),
    "left_shift": (ARITH["LShift"][0], num_dt), "right_shift": (ARITH["RShift"][0], num_dt),
    "copysign": (lambda a, b: t.ite(t.lt(b, ZERO), t.neg(t.absv(a)), t.absv(a)), float_dt),
    "heaviside": (lambda a, b: t.ite(t.lt(a, ZERO), ZERO, t.ite(t.eq(a, ZERO), b, ONE)), float_dt),
    "gcd": (lambda a, b: t.mk("gcd", a, b), num_dt),
    "fmod": (lambda a, b: t.sub(a, t.mul(b, t.trunc(t.div(a, b)))), num_dt),
}
CMPN = {"less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE", "equal": "Eq",
        "not_equal": "NotEq"}


def tb(x):
    return x if t.is_bool(x) else t.ne(x, ZERO)


LOG2 = {"logical_and": lambda a, b: t.land(tb(a), tb(b)),
        "logical_or": lambda a, b: t.lor(tb(a), tb(b)),
        "logical_xor": lambda a, b: t.lnot(t.iff(tb(a), tb(b)))}


def plain_dtype(I, v):
    """The dtype argument does not change the values computed."""
    return v is None or dtype_of(I, v) in (None, "float", "complex")


def _mk_u1(name, f, dt):
    def h(I, args, kwargs):
        kw = dict(kwargs)
        out = kw.pop("out", None)
        if not plain_dtype(I, kw.pop("dtype", None)):
            return I.opq("dtype of %s" % name)
        if kw or len(args) not in (1, 2):
            return I.opq("arguments of %s" % name)
        if len(args) == 2 and out is None:
            out = args[1]
        x = I.res(args[0])
        if isinstance(x, T) and (t.is_string(x) or x is NONE):
            I.raise_exc("TypeError", "ufunc %s not supported for the input type" % name)
        r = ew(I, n_(f), [x], dt)
        return store_out(I, r, out)

    return h


def store_out(I, r, out):
    if out is None or I.res(out) is NONE:
        return r
    out = I.res(out)
    if isinstance(out, Tup) and len(out.items) == 1:
        out = out.items[0]
    if I.is_arr(out) and I.is_arr(r):
        store_all(I, out, I.arr(r))
        return out
    if I.is_arr(out) and isinstance(r, T):
        store_all(I, out, Arr((), elem_dtype(r), lambda ix: r, flat=[r]))
        return out
    I.taint("out argument")
    return I.opq("out argument")


def _mk_u2(name, f, dt):
    def h(I, args, kwargs):
        kw = dict(kwargs)
        out = kw.pop("out", None)
        where = kw.pop("where", None)
        if not plain_dtype(I, kw.pop("dtype", None)):
            return I.opq("dtype of %s" % name)
        if kw or len(args) not in (2, 3):
            return I.opq("arguments of %s" % name)
        if len(args) == 3:
            out = args[2]
        if where is not None and I.res(where) is not TRUE:
            if out is not None and I.is_arr(I.res(out)):
                o = I.res(out)
                wa = need(I, where)
                r = ew(I, lambda w, x, y, z: t.ite(w, f(t.as_num(x), t.as_num(y)), z),
                       [where, args[0], args[1], o], None)
                return store_out(I, r, o)
            return I.opq("where argument")
        r = ew(I, lambda a, b: f(t.as_num(a), t.as_num(b)) if f not in (s_and, s_or, s_xor)
               else f(a, b), args[:2], dt)
        return store_out(I, r, out)

    return h


for _n, (_f, _dt) in U1.items():
    handler("numpy." + _n)(_mk_u1(_n, _f, _dt))
for _n, (_f, _dt) in U2.items():
    handler("numpy." + _n)(_mk_u2(_n, _f, _dt))
for _n, _c in CMPN.items():
    handler("numpy." + _n)(_mk_u2(_n, scalar_cmp(_c), "bool"))


def _mk_log(name, f):
    def h(I, args, kwargs):
        if kwargs or len(args) != 2:
            return I.opq("arguments of %s" % name)
        return ew(I, f, args, "bool")

    return h


for _n, _f in LOG2.items():
    handler("numpy." + _n)(_mk_log(_n, _f))


@N("logical_not", "invert", "bitwise_not")
@spec("x", 1)
def np_not(I, x):
    return ew(I, lambda v: t.lnot(v) if t.is_bool(v) else t.lnot(t.ne(v, ZERO)), [x], "bool")


@N("isnan", "isinf", "isneginf", "isposinf")
@spec("x", 1)
def np_isnan(I, x):
    def f(v):
        if v.op in ("nan", "inf", "neginf") or v.op == "opaque":
            return t.mk("opaque", "isnan:%d" % v.id, "bool")
        return FALSE

    return ew(I, f, [x], "bool")


@N("isfinite")
@spec("x", 1)
def np_isfinite(I, x):
    return ew(I, lambda v: TRUE if v.op not in ("nan", "inf", "neginf", "opaque") else t.mk(
        "opaque", "isfinite:%d" % v.id, "bool"), [x], "bool")


@N("isreal", "isrealobj")
@spec("x", 1)
def np_isreal(I, x):
    return ew(I, lambda v: t.eq(t.imag(v), ZERO), [x], "bool")


def tol(v, I, default):
    if v is None:
        return q(Fraction(default))
    return v


@N("isclose")
@spec("a b rtol atol equal_nan", 2)
def np_isclose(I, a, b, rtol, atol, equal_nan):
    rt, at = tol(rtol, I, "1e-5"), tol(atol, I, "1e-8")
    return ew(I, lambda x, y, r, s: t.isclose(t.as_num(x), t.as_num(y), r, s), [a, b, rt, at], "bool")


@N("allclose")
@spec("a b rtol atol equal_nan", 2)
def np_allclose(I, a, b, rtol, atol, equal_nan):
    r = np_isclose(I, [a, b], {k: v for k, v in (("rtol", rtol), ("atol", atol)) if v is not None})
    return call_named(I, "numpy.all", [r], {})


@N("array_equal")
@spec("a1 a2 equal_nan", 2)
def np_array_equal(I, a1, a2, equal_nan):
    a, b = need(I, a1), need(I, a2)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return I.opq("array_equal")
    if a.ndim != b.ndim:
        return FALSE
    c = t.land(*[t.eq(x, y) for x, y in zip(a.shape, b.shape)])
    if c is FALSE:
        return FALSE
    e = reduce_all(I, Arr(a.shape, "bool", memo_fn(lambda ix: lift(t.eq)(a.get(ix), b.get(ix)))))
    if not isinstance(e, T):
        return I.opq("array_equal")
    return t.land(c, e)


# -- creation ------------------------------------------------------------------------------------


@N("array", "asarray", "asanyarray", "ascontiguousarray", "asfarray")
def np_array(I, args, kwargs):
    kw = dict(kwargs)
    kw.pop("order", None)
    kw.pop("subok", None)
    ndmin = const_int(I, kw.pop("ndmin", None), 0)
    copy = kw.pop("copy", None)
    obj = args[0] if args else kw.pop("object", kw.pop("a", None))
    dt = dtype_of(I, args[1] if len(args) > 1 else kw.pop("dtype", None))
    if kw or obj is None or len(args) > 2 or isinstance(dt, Opq) or ndmin is None:
        return I.opq("arguments of np.array")
    return mk_array(I, obj, dt, True, ndmin)


@handler("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfarray")
def np_asarray(I, args, kwargs):
    kw = dict(kwargs)
    obj = args[0] if args else kw.pop("a", None)
    dt = dtype_of(I, args[1] if len(args) > 1 else kw.pop("dtype", None))
    kw.pop("order", None)
    if kw or obj is None or isinstance(dt, Opq):
        return I.opq("arguments of np.asarray")
    return mk_array(I, obj, dt, False, 0)


def mk_array(I, obj, dt, copy, ndmin):
    obj = I.res(obj)
    if isinstance(obj, Opq):
        return obj
    if not copy and I.is_arr(obj) and (dt is None or dt == I.arr(obj).dtype):
        return obj
    if isinstance(obj, Ref) and isinstance(I.cell(obj), (DictC, SetC)):
        return I.opq("array of a container")
    if obj is NONE:
        if dt is None:
            return I.new(ArrC(Arr((), "object", lambda ix: NONE, flat=[NONE])))
        return I.opq("array of None")
    a = to_arr(I, obj)
    if a is None:
        return I.opq("array of %r" % (obj,))
    if dt is not None:
        if a.dtype == "object" and a.flat is not None and any(x is NONE for x in a.flat):
            if dt in ("float", "complex"):
                return I.opq("array of None")
            I.raise_exc("TypeError", "float() argument must be a string or a number, not 'NoneType'")
        if a.dtype == "str" and dt in ("float", "int"):
            if a.flat is not None or True:
                return I.opq("array of text")
        if a.dtype == "complex" and dt in ("float", "int", "float32") and not I.is_arr(obj):
            I.raise_exc("TypeError", "can't convert complex to float")
        a = cast_arr(a, dt)
    while a.ndim < ndmin:
        b = a
        a = Arr((ONE,) + b.shape, b.dtype, lambda ix, b=b: b.get(ix[1:]))
    if a.ndim == 0:
        # 0-d arrays behave as scalars, but have no length
        return a.get(())
    return I.new(ArrC(Arr(a.shape, a.dtype, a.fn, flat=a.flat, mask=a.mask)))


def shape_arg(I, s):
    s = I.res(s)
    if isinstance(s, T):
        if t.is_num(s):
            return (check_dim(I, s),)
        return None
    if I.is_arr(s):
        a = I.arr(s)
        if a.flat is not None and all(isinstance(x, T) for x in a.flat):
            return tuple(check_dim(I, x) for x in a.flat)
        return None
    sq = I.seq_of(s)
    if sq is None or sq.items is None or not all(isinstance(I.res(x), T) for x in sq.items):
        return None
    return tuple(check_dim(I, I.res(x)) for x in sq.items)


def check_dim(I, d):
    d = I.simp(t.as_num(d))
    if d.op == "q" and d.args[0].denominator != 1:
        I.raise_exc("TypeError", "'float' object cannot be interpreted as an integer")
    bad = t.lt(d, ZERO)
    r = I.decide(bad)
    if r is TRUE:
        I.raise_exc("ValueError", "negative dimensions are not allowed")
    if r is None:
        I.raise_exc("ValueError", "negative dimensions are not allowed", bad)
    return d


def filled(I, shape, v, dt):
    sh = shape_arg(I, shape)
    if sh is None or isinstance(dt, Opq):
        return I.opq("array shape")
    dt = dt or "float"
    x = cast_elem(v, elem_dtype(v), dt)
    return I.mk_arr(Arr(sh, dt, lambda ix: x))


@N("zeros", "empty")
@spec("shape dtype order", 1)
def np_zeros(I, shape, dtype, order):
    return filled(I, shape, ZERO, dtype_of(I, dtype))


@N("ones")
@spec("shape dtype order", 1)
def np_ones(I, shape, dtype, order):
    return filled(I, shape, ONE, dtype_of(I, dtype))


@N("full")
@spec("shape fill_value dtype order", 2)
def np_full(I, shape, fill_value, dtype, order):
    v = I.res(fill_value)
    dt = dtype_of(I, dtype)
    if not isinstance(v, T):
        sh = shape_arg(I, shape)
        a = to_arr(I, v)
        if sh is None or a is None:
            return I.opq("np.full")
        return I.mk_arr(cast_arr(Arr(sh, a.dtype, memo_fn(lambda ix: a.get(bindex(a, sh, ix)))), dt))
    return filled(I, shape, v, dt or elem_dtype(v))


def _like(v):
    def h(I, a, dtype, order, subok, shape):
        x = need(I, a)
        if isinstance(x, Opq):
            return x
        dt = dtype_of(I, dtype) or x.dtype
        if isinstance(dt, Opq):
            return dt
        return I.mk_arr(Arr(x.shape, dt, lambda ix: v))

    return h


handler("numpy.zeros_like", "numpy.empty_like")(spec("a dtype order subok shape", 1)(_like(ZERO)))
handler("numpy.ones_like")(spec("a dtype order subok shape", 1)(_like(ONE)))


@N("full_like")
@spec("a fill_value dtype order subok shape", 2)
def np_full_like(I, a, fill_value, dtype, order, subok, shape):
    x = need(I, a)
    v = I.res(fill_value)
    dt = dtype_of(I, dtype)
    if isinstance(x, Opq) or not isinstance(v, T) or isinstance(dt, Opq):
        return I.opq("np.full_like")
    dt = dt or x.dtype
    v2 = cast_elem(v, elem_dtype(v), dt) if dt != "num" else v
    return I.mk_arr(Arr(x.shape, dt, lambda ix: v2))


@N("identity", "eye")
@spec("N M k dtype", 1)
def np_eye(I, N, M, k, dtype):
    if M is not None or k is not None:
        return I.opq("np.eye")
    sh = shape_arg(I, Tup([N, N]))
    if sh is None:
        return I.opq("np.eye")
    return I.mk_arr(Arr(sh, "float", lambda ix: t.ite(t.eq(ix[0], ix[1]), ONE, ZERO)))


@N("arange")
@spec("start stop step dtype", 1)
def np_arange(I, start, stop, step, dtype):
    start, stop, step = [I.res(x) if x is not None else None for x in (start, stop, step)]
    if stop is None or stop is NONE:
        start, stop = ZERO, start
    if step is None or step is NONE:
        step = ONE
    for x in (start, stop, step):
        if not isinstance(x, T) or not t.is_num(x):
            return I.opq("np.arange")
    n = I.simp(t.ceil(t.div(t.sub(stop, start), step)))
    d = I.decide(t.ge(n, ZERO))
    if d is FALSE:
        n = ZERO
    elif d is None:
        n = I.simp(t.vmax(n, ZERO))
    dt = dtype_of(I, dtype)
    if isinstance(dt, Opq):
        return dt
    if dt is None:
        dt = elem_dtype(start)
        for x in (stop, step):
            dt = promote(dt, elem_dtype(x))
    elif dt not in ("float", "complex") and not all(t.is_int(x) for x in (start, stop, step)):
        return I.opq("dtype of np.arange")
    r = Arr((n,), "num", lambda ix: t.add(start, t.mul(step, ix[0])))
    return I.mk_arr(cast_arr(r, dt) if dt in NARROW or dt == "float32" else Arr((n,), dt, r.fn))


@N("linspace")
@spec("start stop num endpoint retstep dtype axis", 2)
def np_linspace(I, start, stop, num, endpoint, retstep, dtype, axis):
    a, b = I.res(start), I.res(stop)
    n = I.res(num) if num is not None else q(50)
    ep = I.truth(endpoint) if endpoint is not None else TRUE
    ep = I.decide(ep)
    if not (isinstance(a, T) and isinstance(b, T) and isinstance(n, T)) or ep is None or axis is not None:
        return I.opq("np.linspace")
    n = check_dim(I, n)
    d = t.sub(n, ONE) if ep is TRUE else n
    if d is ZERO:
        step = ZERO
    else:
        step = t.div(t.sub(b, a), d)
    dt = dtype_of(I, dtype) or "float"
    r = cast_arr(Arr((n,), "float", lambda ix: t.add(a, t.mul(step, ix[0])) if not (
        ix[0] is ZERO) else a), dt)
    if retstep is not None and I.decide(I.truth(retstep)) is TRUE:
        return Tup([I.mk_arr(r), step])
    return I.mk_arr(r)


@N("fromiter")
@spec("iter dtype count", 2)
def np_fromiter(I, iter, dtype, count):
    sq = I.seq_of(iter)
    if sq is None:
        return I.opq("np.fromiter")
    return mk_array(I, I.mk_list(sq), dtype_of(I, dtype), True, 0)


@N("copy")
@spec("a order", 1)
def np_copy(I, a, order):
    return mk_array(I, a, None, True, 0)


@N("fromfunction")
@spec("function shape dtype", 2)
def np_fromfunction(I, function, shape, dtype):
    sh = shape_arg(I, shape)
    if sh is None:
        return I.opq("np.fromfunction")
    args = [I.mk_arr(Arr(sh, "float", lambda ix, j=j: ix[j])) for j in range(len(sh))]
    return I.call(function, args, {})


# -- joining -------------------------------------------------------------------------------------


def arr_list(I, v):
    sq = I.seq_of(v)
    if sq is None or sq.items is None:
        return None
    out = [need(I, x) for x in sq.items]
    if any(isinstance(a, Opq) for a in out):
        return None
    return out


def ret(I, a, why="array operation"):
    return I.mk_arr(a) if a is not None else I.opq(why)


@N("concatenate")
@spec("arrays axis out dtype", 1)
def np_concatenate(I, arrays, axis, out, dtype):
    if not plain_dtype(I, dtype):
        return I.opq("dtype of np.concatenate")
    sq = I.seq_of(arrays)
    if sq is not None and sq.items is None and (axis is None or const_int(I, axis) == 0):
        return flatten_rows(I, sq)
    arrs = arr_list(I, arrays)
    if arrs is None:
        return I.opq("np.concatenate")
    if axis is not None and I.res(axis) is NONE:
        arrs = [ravel(I, a) for a in arrs]
        return ret(I, concat_arrs(I, arrs, 0))
    ax = const_int(I, axis, 0)
    if ax is None or not arrs:
        return I.opq("np.concatenate")
    if any(a.ndim == 0 for a in arrs):
        I.raise_exc("ValueError", "zero-dimensional arrays cannot be concatenated")
    r = concat_arrs(I, arrs, ax)
    return store_out(I, ret(I, r), out)


def flatten_rows(I, sq):
    """Concatenation of symbolically many equally sized arrays."""
    v = t.fresh("r", "int", sign="nonneg")
    a = to_arr(I, I.res(sq.get(v)))
    if a is None or a.ndim < 1 or any(t.depends(d, v) for d in a.shape):
        return I.opq("concatenate of unknown arrays")
    m = a.shape[0]

    def fn(ix):
        i = ix[0]
        r = t.floordiv(i, m) if m is not ONE else i
        return to_arr(I, sq.get(r)).get((t.sub(i, t.mul(m, r)),) + ix[1:])

    return I.mk_arr(Arr((t.mul(sq.n, m),) + a.shape[1:], a.dtype, memo_fn(fn)))


@N("append")
@spec("arr values axis", 2)
def np_append(I, arr, values, axis):
    a, b = need(I, arr), need(I, values)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return I.opq("np.append")
    if is_none(I, axis):
        a, b = ravel(I, a), ravel(I, b)
        return ret(I, concat_arrs(I, [a, b], 0))
    ax = const_int(I, axis)
    if ax is None:
        return I.opq("np.append")
    return ret(I, concat_arrs(I, [a, b], ax))


def ravel(I, a):
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        x = a.get(())
        return flat_arr([x], a.dtype)
    if a.flat is not None:
        return flat_arr(a.flat, a.dtype)
    n = a.size()

    def fn(ix):
        i = ix[0]
        out = []
        for d in reversed(a.shape[1:]):
            r = t.floordiv(i, d)
            out.append(t.sub(i, t.mul(d, r)))
            i = r
        out.append(i)
        return a.get(tuple(reversed(out)))

    return Arr((n,), a.dtype, memo_fn(fn))


@N("ravel", "ndarray.flatten", "ndarray.ravel")
@spec("a order", 1)
def np_ravel(I, a, order):
    if order is not None and not (isinstance(order, T) and order.op == "str" and order.args[0] in "CA"):
        x = need(I, a)
        if isinstance(x, Opq):
            return x
        if isinstance(order, T) and order.op == "str" and order.args[0] == "F":
            return I.mk_arr(ravel(I, transpose(x)))
        return I.opq("order")
    x = need(I, a)
    if isinstance(x, Opq):
        return x
    if x.ndim == 1 and I.is_arr(I.res(a)):
        # ravel of a 1-d array is a view; flatten a copy.  Copies are modelled; stores to the
        # result of ravel() are rejected by tainting in pyfuncs.
        pass
    r = ravel(I, x)
    return I.new(ArrC(Arr(r.shape, r.dtype, r.fn, flat=r.flat, mask=r.mask)))


def transpose(a):
    return Arr(tuple(reversed(a.shape)), a.dtype, memo_fn(lambda ix: a.get(tuple(reversed(ix)))))


@N("transpose")
@spec("a axes", 1)
def np_transpose(I, a, axes):
    x = need(I, a)
    if isinstance(x, Opq) or not is_none(I, axes):
        return I.opq("np.transpose")
    return I.mk_arr(transpose(x))


@N("hstack")
@spec("tup", 1)
def np_hstack(I, tup):
    sq = I.seq_of(tup)
    if sq is not None and sq.items is None:
        return flatten_rows(I, sq)
    arrs = arr_list(I, tup)
    if not arrs:
        return I.opq("np.hstack")
    arrs = [ravel(I, a) if a.ndim == 0 else a for a in arrs]
    return ret(I, concat_arrs(I, arrs, 0 if arrs[0].ndim == 1 else 1))


@N("vstack", "row_stack")
@spec("tup", 1)
def np_vstack(I, tup):
    sq = I.seq_of(tup)
    if sq is not None and sq.items is None:
        return flatten_rows(I, sq)
    arrs = arr_list(I, tup)
    if not arrs:
        return I.opq("np.vstack")
    return ret(I, concat_arrs(I, [two_d(a) for a in arrs], 0))


def two_d(a):
    if a.ndim == 0:
        x = a.get(())
        return Arr((ONE, ONE), a.dtype, lambda ix: x)
    if a.ndim == 1:
        return Arr((ONE,) + a.shape, a.dtype, lambda ix: a.get(ix[1:]))
    return a


@N("dstack")
@spec("tup", 1)
def np_dstack(I, tup):
    return I.opq("np.dstack")


@N("stack")
@spec("arrays axis out", 1)
def np_stack(I, arrays, axis, out):
    arrs = arr_list(I, arrays)
    ax = const_int(I, axis, 0)
    if not arrs or ax is None:
        return I.opq("np.stack")
    nd = arrs[0].ndim + 1
    if ax < 0:
        ax += nd

    def exp(a):
        return Arr(a.shape[:ax] + (ONE,) + a.shape[ax:], a.dtype,
                   lambda ix: a.get(ix[:ax] + ix[ax + 1:]))

    return ret(I, concat_arrs(I, [exp(a) for a in arrs], ax))


@N("column_stack")
@spec("tup", 1)
def np_column_stack(I, tup):
    arrs = arr_list(I, tup)
    if not arrs:
        return I.opq("np.column_stack")

    def col(a):
        if a.ndim == 1:
            return Arr(a.shape + (ONE,), a.dtype, lambda ix: a.get(ix[:1]))
        return a

    return ret(I, concat_arrs(I, [col(a) for a in arrs], 1))


class _Trans:
    pass


@N("pad")
@spec("array pad_width mode constant_values", 2)
def np_pad(I, array, pad_width, mode, constant_values):
    a = need(I, array)
    if isinstance(a, Opq) or a.ndim != 1:
        return I.opq("np.pad")
    m = t.string("constant") if mode is None else I.res(mode)
    ws = pad_pair(I, pad_width)
    if ws is None or not (isinstance(m, T) and m.op == "str" and m.args[0] in ("constant", "edge")):
        return I.opq("np.pad")
    if m.args[0] == "constant":
        vs = [ZERO, ZERO] if constant_values is None else pad_pair(I, constant_values)
    else:
        if I.decide(t.ge(a.shape[0], ONE)) is not TRUE:
            return I.opq("np.pad")
        vs = [a.get((ZERO,)), a.get((t.sub(a.shape[0], ONE),))]
    if vs is None or any(I.decide(t.ge(w, ZERO)) is not TRUE for w in ws):
        return I.opq("np.pad")
    parts = []
    for w, v in zip(ws, vs):
        if w.op == "q":
            parts.append(flat_arr([v] * int(w.args[0]), a.dtype))
        else:
            parts.append(Arr((w,), a.dtype, lambda ix, v=v: v))
    return ret(I, concat_arrs(I, [parts[0], a, parts[1]], 0))


def pad_pair(I, v):
    """The two scalars of an argument given as x, (x,), (before, after) or ((before, after),)."""
    v = I.res(v)
    for _ in range(3):
        if isinstance(v, T):
            return [v, v] if is_numeric_scalar(v) else None
        sq = I.seq_of(v)
        if sq is None or sq.items is None:
            return None
        xs = [I.res(x) for x in sq.items]
        if len(xs) == 2 and all(isinstance(x, T) and is_numeric_scalar(x) for x in xs):
            return xs
        if len(xs) != 1:
            return None
        v = xs[0]
    return None


@N("block")
@spec("arrays", 1)
def np_block(I, arrays):
    return I.opq("np.block")


@N("insert")
@spec("arr obj values axis", 3)
def np_insert(I, arr, obj, values, axis):
    a = need(I, arr)
    v = need(I, values)
    o = I.res(obj)
    if isinstance(a, Opq) or isinstance(v, Opq):
        return I.opq("np.insert")
    if not is_none(I, axis):
        ax = const_int(I, axis)
        if not (ax in (0, -1) and a.ndim == 1):
            return I.opq("np.insert axis")
    a = ravel(I, a)
    n = a.shape[0]
    if isinstance(o, T):
        pos = [o]
        scalar = True
    else:
        oa = need(I, o)
        if isinstance(oa, Opq) or oa.ndim != 1 or oa.flat is None or oa.dtype == "bool":
            return I.opq("np.insert positions")
        pos = list(oa.flat)
        scalar = len(pos) == 1
    if any(not isinstance(p, T) for p in pos):
        return I.opq("np.insert positions")
    ps = []
    for p in pos:
        ps.append(norm_pos(I, p, n))
    vals = ravel(I, v)
    if scalar and len(ps) == 1:
        # all values are inserted before one position
        pieces = [vals]
        cuts = [(ps[0], vals)]
    else:
        if vals.shape[0] is ONE:
            vl = [vals.get((ZERO,))] * len(ps)
        elif vals.flat is not None and len(vals.flat) == len(ps):
            vl = vals.flat
        else:
            if vals.flat is not None:
                I.raise_exc("ValueError", "could not broadcast values to insert")
            return I.opq("np.insert values")
        order = sort_positions(I, ps)
        if order is None:
            return I.opq("np.insert positions")
        cuts = [(ps[k], flat_arr([vl[k]], vals.dtype)) for k in order]
    # np.insert casts the values to the array's dtype
    out = []
    last = ZERO
    for p, va in cuts:
        out.append(slice_1d(I, a, last, p))
        x = va if a.dtype in ("num",) else cast_arr(va, a.dtype)
        out.append(x)
        last = p
    out.append(slice_1d(I, a, last, n))
    out = [x for x in out if x.shape[0] is not ZERO]
    dt = a.dtype
    if dt == "num":
        for p, va in cuts:
            dt = promote(dt, va.dtype)
    if not out:
        return I.mk_arr(flat_arr([], dt))
    r = concat_arrs(I, [Arr(x.shape, dt, x.fn, flat=x.flat) for x in out], 0)
    return ret(I, r)


def norm_pos(I, p, n):
    p = I.simp(p)
    neg = I.decide(t.lt(p, ZERO))
    if neg is TRUE:
        p = t.add(p, n)
    elif neg is None:
        p = t.ite(t.lt(p, ZERO), t.add(p, n), p)
    bad = I.decide(t.lor(t.gt(p, n), t.lt(p, ZERO)))
    if bad is TRUE:
        I.raise_exc("IndexError", "insert position out of bounds")
    if bad is None:
        I.raise_exc("IndexError", "insert position out of bounds", t.lor(t.gt(p, n), t.lt(p, ZERO)))
    return I.simp(p)


def sort_positions(I, ps):
    order = []
    for k, p in enumerate(ps):
        j = len(order)
        while j > 0:
            d = I.decide(t.le(ps[order[j - 1]], p))
            if d is TRUE:
                break
            if d is None:
                return None
            j -= 1
        order.insert(j, k)
    return order


def slice_1d(I, a, lo, hi):
    n = I.simp(t.sub(hi, lo))
    if lo is ZERO and n is a.shape[0]:
        return a
    if a.flat is not None and lo.op == "q" and n.op == "q":
        i = int(lo.args[0])
        return flat_arr(a.flat[i:i + int(n.args[0])], a.dtype)
    return Arr((n,), a.dtype, memo_fn(lambda ix: a.get((t.add(lo, ix[0]),))))


@N("delete")
@spec("arr obj axis", 2)
def np_delete(I, arr, obj, axis):
    a = need(I, arr)
    o = I.res(obj)
    if isinstance(a, Opq) or (not is_none(I, axis) and not (const_int(I, axis) == 0 and a.ndim == 1)):
        return I.opq("np.delete")
    a = ravel(I, a)
    n = a.shape[0]
    if isinstance(o, T):
        ps = [o]
    else:
        oa = need(I, o)
        if isinstance(oa, Opq) or oa.ndim != 1:
            return I.opq("np.delete")
        if oa.dtype == "bool":
            m = Arr(oa.shape, "bool", memo_fn(lambda ix: lift(t.lnot)(oa.get(ix))))
            return ret(I, compress(I, a, m))
        if oa.mask is not None:
            m = Arr((n,), "bool", memo_fn(lambda ix: lift(t.lnot)(oa.mask[1](ix[0]))))
            return ret(I, compress(I, a, m))
        if oa.flat is None:
            return I.opq("np.delete")
        ps = oa.flat
    if any(not isinstance(p, T) for p in ps):
        return I.opq("np.delete")
    ps = [norm_index(I, p, n) for p in ps]
    order = sort_positions(I, ps)
    if order is None:
        return I.opq("np.delete")
    out, last, prev = [], ZERO, None
    for k in order:
        p = ps[k]
        if prev is not None and I.decide(t.eq(p, prev)) is not FALSE:
            if I.decide(t.eq(p, prev)) is TRUE:
                continue
            return I.opq("np.delete")
        prev = p
        out.append(slice_1d(I, a, last, p))
        last = I.simp(t.add(p, ONE))
    out.append(slice_1d(I, a, last, n))
    return ret(I, concat_arrs(I, out, 0))


@N("repeat")
@spec("a repeats axis", 2)
def np_repeat(I, a, repeats, axis):
    x = need(I, a)
    r = I.res(repeats)
    if isinstance(x, Opq):
        return x
    if not is_none(I, axis) and not (const_int(I, axis) == 0 and x.ndim == 1):
        return I.opq("np.repeat")
    x = ravel(I, x)
    if not isinstance(r, T):
        ra = need(I, r)
        if isinstance(ra, Opq) or ra.flat is None or x.flat is None or not all(
                isinstance(e, T) and e.op == "q" for e in ra.flat):
            return I.opq("np.repeat")
        out = []
        for e, k in zip(x.flat, ra.flat):
            out += [e] * int(k.args[0])
        return I.mk_arr(flat_arr(out, x.dtype))
    r = check_dim(I, r)
    if x.shape[0] is ONE:
        e = x.get((ZERO,))
        return I.mk_arr(Arr((r,), x.dtype, lambda ix: e))
    if r.op == "q" and x.flat is not None:
        return I.mk_arr(flat_arr([e for e in x.flat for _ in range(int(r.args[0]))], x.dtype))
    return I.mk_arr(Arr((t.mul(x.shape[0], r),), x.dtype,
                        memo_fn(lambda ix: x.get((t.floordiv(ix[0], r),)))))


@N("tile")
@spec("A reps", 2)
def np_tile(I, A, reps):
    x = need(I, A)
    if isinstance(x, Opq):
        return x
    sh = shape_arg(I, reps)
    if sh is None:
        return I.opq("np.tile")
    if x.ndim == 0:
        x = ravel(I, x)
    if len(sh) != 1:
        if len(sh) == 2 and x.ndim == 1:
            x1 = x
            return I.mk_arr(Arr((sh[0], t.mul(sh[1], x.shape[0])), x.dtype, memo_fn(
                lambda ix: x1.get((t.mod(ix[1], x1.shape[0]),)) if sh[1] is not ONE else x1.get(
                    (ix[1],)))))
        return I.opq("np.tile")
    if x.ndim != 1:
        return I.opq("np.tile")
    r = sh[0]
    if x.flat is not None and r.op == "q":
        return I.mk_arr(flat_arr(list(x.flat) * int(r.args[0]), x.dtype))
    if x.shape[0] is ONE:
        e = x.get((ZERO,))
        return I.mk_arr(Arr((r,), x.dtype, lambda ix: e))
    return I.mk_arr(Arr((t.mul(x.shape[0], r),), x.dtype,
                        memo_fn(lambda ix: x.get((t.mod(ix[0], x.shape[0]),)))))


@N("flip", "flipud")
@spec("m axis", 1)
def np_flip(I, m, axis):
    x = need(I, m)
    if isinstance(x, Opq) or x.ndim != 1:
        return I.opq("np.flip")
    return I.mk_arr(Arr(x.shape, x.dtype, memo_fn(
        lambda ix: x.get((t.sub(t.sub(x.shape[0], ONE), ix[0]),)))))


@N("roll")
@spec("a shift axis", 2)
def np_roll(I, a, shift, axis):
    x = need(I, a)
    s = I.res(shift)
    if isinstance(x, Opq) or x.ndim != 1 or not isinstance(s, T):
        return I.opq("np.roll")
    n = x.shape[0]
    if x.flat is not None and s.op == "q" and x.flat:
        k = int(s.args[0]) % len(x.flat)
        return I.mk_arr(flat_arr(x.flat[-k:] + x.flat[:-k] if k else x.flat, x.dtype))
    if s is ONE:
        return I.mk_arr(Arr(x.shape, x.dtype, memo_fn(lambda ix: gate(
            t.eq(ix[0], ZERO), x.get((t.sub(n, ONE),)), x.get((t.sub(ix[0], ONE),))))))
    if s is q(-1):
        return I.mk_arr(Arr(x.shape, x.dtype, memo_fn(lambda ix: gate(
            t.eq(ix[0], t.sub(n, ONE)), x.get((ZERO,)), x.get((t.add(ix[0], ONE),))))))
    return I.mk_arr(Arr(x.shape, x.dtype, memo_fn(lambda ix: x.get((t.mod(t.sub(ix[0], s), n),)))))


@N("reshape")
@spec("a newshape order", 2)
def np_reshape(I, a, newshape, order):
    return reshape(I, a, newshape)


def reshape(I, a, newshape):
    x = need(I, a)
    if isinstance(x, Opq):
        return x
    s = I.res(newshape)
    sq = ESeq([s]) if isinstance(s, T) else I.seq_of(s)
    if sq is None or sq.items is None:
        return I.opq("reshape")
    dims = [I.simp(I.res(d)) for d in sq.items]
    if not all(isinstance(d, T) for d in dims):
        return I.opq("reshape")
    size = x.size()
    known = t.mul(ONE, *[d for d in dims if d is not q(-1)])
    if any(d is q(-1) for d in dims):
        rest = t.div(size, known)
        if rest.op == "q" and rest.args[0].denominator != 1:
            I.raise_exc("ValueError", "cannot reshape array")
        dims = [rest if d is q(-1) else d for d in dims]
    elif not same_dim(I, size, known):
        if I.decide(t.eq(size, known)) is FALSE:
            I.raise_exc("ValueError", "cannot reshape array")
        return I.opq("reshape")
    fl = ravel(I, x)
    if fl.flat is not None:
        return I.mk_arr(Arr(tuple(dims), x.dtype, None, flat=fl.flat))

    # adding or removing unit axes keeps the other indices
    core_old = [d for d in x.shape if d is not ONE]
    core_new = [d for d in dims if d is not ONE]
    if len(core_old) == len(core_new) and all(p is r for p, r in zip(core_old, core_new)):
        def fn(ix):
            vals = [i for i, d in zip(ix, dims) if d is not ONE]
            out = []
            for d in x.shape:
                out.append(ZERO if d is ONE else vals.pop(0))
            return x.get(tuple(out))

        return I.mk_arr(Arr(tuple(dims), x.dtype, memo_fn(fn)))

    def fn2(ix):
        k = ZERO
        for i, d in zip(ix, dims):
            k = t.add(t.mul(k, d), i)
        return fl.get((k,))

    return I.mk_arr(Arr(tuple(dims), x.dtype, memo_fn(fn2)))


@N("expand_dims")
@spec("a axis", 2)
def np_expand_dims(I, a, axis):
    x = need(I, a)
    ax = const_int(I, axis)
    if isinstance(x, Opq) or ax is None:
        return I.opq("np.expand_dims")
    if ax < 0:
        ax += x.ndim + 1
    return I.mk_arr(Arr(x.shape[:ax] + (ONE,) + x.shape[ax:], x.dtype,
                        memo_fn(lambda ix: x.get(ix[:ax] + ix[ax + 1:]))))


@N("squeeze")
@spec("a axis", 1)
def np_squeeze(I, a, axis):
    x = need(I, a)
    if isinstance(x, Opq) or axis is not None:
        return I.opq("np.squeeze")
    if any(d.op != "q" and I.decide(t.eq(d, ONE)) is not FALSE for d in x.shape):
        return I.opq("np.squeeze")
    keep = [j for j, d in enumerate(x.shape) if d is not ONE]

    def fn(ix):
        full = [ZERO] * x.ndim
        for j, i in zip(keep, ix):
            full[j] = i
        return x.get(tuple(full))

    return I.mk_arr(Arr([x.shape[j] for j in keep], x.dtype, memo_fn(fn)))


@N("atleast_1d")
@spec("a", 1)
def np_atleast_1d(I, a):
    x = I.res(a)
    if isinstance(x, T):
        return I.mk_arr(flat_arr([x], elem_dtype(x)))
    return mk_array(I, x, None, False, 0)


@N("atleast_2d")
@spec("a", 1)
def np_atleast_2d(I, a):
    x = need(I, a)
    return x if isinstance(x, Opq) else I.mk_arr(two_d(x))


@N("swapaxes")
@spec("a axis1 axis2", 3)
def np_swapaxes(I, a, axis1, axis2):
    x = need(I, a)
    if isinstance(x, Opq) or x.ndim != 2:
        return I.opq("swapaxes")
    return I.mk_arr(transpose(x)) if const_int(I, axis1) != const_int(I, axis2) else I.mk_arr(x)


@N("split", "array_split")
@spec("ary indices_or_sections axis", 2)
def np_split(I, ary, indices_or_sections, axis):
    return I.opq("np.split")


@N("meshgrid")
def np_meshgrid(I, args, kwargs):
    return I.opq("np.meshgrid")


@N("broadcast_to")
@spec("array shape subok", 2)
def np_broadcast_to(I, array, shape, subok):
    x = need(I, array)
    sh = shape_arg(I, shape)
    if isinstance(x, Opq) or sh is None:
        return I.opq("np.broadcast_to")
    return I.mk_arr(Arr(sh, x.dtype, memo_fn(lambda ix: x.get(bindex(x, sh, ix)))))


# -- reductions ----------------------------------------------------------------------------------


def reduce_axis(I, a, axis, red, dtype, keepdims=False):
    """red(n, fn) reduces a 1-d family of elements; returns a value."""
    if axis is None:
        f = ravel(I, a)
        return red(f.shape[0], lambda i: f.get((i,)), f.flat)
    if axis < 0:
        axis += a.ndim
    if not 0 <= axis < a.ndim:
        I.raise_exc("ValueError", "axis out of bounds")
    n = a.shape[axis]
    shape = a.shape[:axis] + a.shape[axis + 1:]

    def fn(ix):
        g = lambda i: a.get(ix[:axis] + (i,) + ix[axis:])
        flat = [g(q(k)) for k in range(int(n.args[0]))] if n.op == "q" and n.args[0] <= 4096 else None
        return red(n, g, flat)

    if keepdims:
        sh = a.shape[:axis] + (ONE,) + a.shape[axis + 1:]
        return I.mk_arr(Arr(sh, dtype, memo_fn(lambda ix: fn(ix[:axis] + ix[axis + 1:]))))
    return I.mk_arr(Arr(shape, dtype, memo_fn(fn)))


def opaque_elem(I):
    return I.opq("reduction of unknown elements")


def red_fold(I, pair, unit, big):
    def red(n, fn, flat):
        if flat is not None:
            for x in flat:
                if not isinstance(x, T):
                    return Opq("reduction of unknown elements")
            return pair(flat)
        lam = lam_elem(I, fn)
        if lam is None:
            return Opq("reduction of unknown elements")
        return big(n, lam)

    return red


def r_sum(I):
    return red_fold(I, lambda xs: t.add(ZERO, *xs), ZERO,
                    lambda n, l: t.vsum(n, t.relam(l, t.as_num)))


def r_prod(I):
    return red_fold(I, lambda xs: t.mul(ONE, *xs), ONE,
                    lambda n, l: t.vprod(n, t.relam(l, t.as_num)))


def r_all(I):
    return red_fold(I, lambda xs: t.land(*[tb(x) for x in xs]), TRUE,
                    lambda n, l: t.forall(n, t.relam(l, tb)))


def r_any(I):
    return red_fold(I, lambda xs: t.lor(*[tb(x) for x in xs]), FALSE,
                    lambda n, l: t.exists(n, t.relam(l, tb)))


def maxlist(xs):
    return t.vmax(*xs)


def r_max(I):
    return red_fold(I, lambda xs: t.vmax(*xs), None, lambda n, l: t.amax(n, t.relam(l, t.as_num)))


def r_min(I):
    return red_fold(I, lambda xs: t.vmin(*xs), None, lambda n, l: t.amin(n, t.relam(l, t.as_num)))


def reduce_all(I, a):
    return reduce_axis(I, a, None, r_all(I), "bool")


def nonempty(I, a, axis):
    n = a.size() if axis is None else a.shape[axis]
    bad = t.le(n, ZERO)
    d = I.decide(bad)
    if d is TRUE:
        I.raise_exc("ValueError", "zero-size array to reduction operation which has no identity")
    if d is None:
        I.raise_exc("ValueError", "zero-size array to reduction operation which has no identity", bad)


def _mk_red(maker, dt, need_nonempty=False):
    def h(I, a, axis, dtype, out, keepdims, initial, where):
        x = need(I, a)
        if isinstance(x, Opq):
            return x
        start = None
        if initial is not None and not is_none(I, initial):
            start = I.res(initial)
            if not (isinstance(start, T) and is_numeric_scalar(start)):
                return I.opq("reduction arguments")
        if where is not None and I.res(where) is not TRUE:
            unit = {r_sum: ZERO, r_prod: ONE, r_all: TRUE, r_any: FALSE}.get(maker, start)
            if unit is None:
                return I.opq("reduction arguments")
            x = need(I, call_named(I, "numpy.where", [where, a, unit], {}))
            if isinstance(x, Opq):
                return x
        ax = None if is_none(I, axis) else const_int(I, axis)
        if not is_none(I, axis) and ax is None:
            r = I.res(axis)
            if isinstance(r, Tup) and len(r.items) == x.ndim:
                ax = None
            else:
                return I.opq("axis")
        if x.ndim == 0:
            x = ravel(I, x)
            ax = None
        if ax is not None and ax < 0:
            ax += x.ndim
        kd = keepdims is not None and I.decide(I.truth(keepdims)) is TRUE
        if need_nonempty and start is None:
            nonempty(I, x, ax)
        if kd and ax is None:
            return I.opq("keepdims")
        dd = None if is_none(I, dtype) else dtype_of(I, dtype)
        if isinstance(dd, Opq):
            return I.opq("reduction arguments")
        if dd == "int" or dd in NARROW:
            x = cast_arr(x, dd)
        d = dt if dt else dd if dd and dd not in NARROW else "int" if x.dtype in NARROW and maker in (r_sum, r_prod) else x.dtype
        if x.ndim == 1:
            ax = None if not kd else ax
        r = reduce_axis(I, x, ax, maker(I), d, kd)
        if start is not None:
            n = x.size() if ax is None else x.shape[ax]
            if maker in (r_sum, r_prod):
                r = binop(I, "Add" if maker is r_sum else "Mult", r, start)
            elif maker in (r_max, r_min):
                both = call_named(I, "numpy.maximum" if maker is r_max else "numpy.minimum", [r, start], {})
                empty = t.le(n, ZERO)
                d = I.decide(empty)
                if d is not FALSE and ax is not None:
                    return I.opq("reduction arguments")
                r = start if d is TRUE else (both if d is FALSE else I.gatev(empty, start, both))
            else:
                return I.opq("reduction arguments")
        if dd in NARROW or dd == "float32":
            if not isinstance(r, T):
                return I.opq("reduction arguments")
            r = cast_elem(r, "int" if dd in NARROW else None, dd)
        return store_out(I, r, out)

    return spec("a axis dtype out keepdims initial where", 1)(h)


def _mk_red2(maker, dt, ne=False):
    """Reductions without a dtype parameter (any, all, amax, amin)."""
    base = _mk_red(maker, dt, ne)

    def h(I, args, kwargs):
        names = ["a", "axis", "out", "keepdims", "initial", "where"] if ne else ["a", "axis", "out", "keepdims", "where"]
        kw = dict(kwargs)
        for n, v in zip(names, args):
            kw[n] = v
        return base(I, [], kw)

    return h


handler("numpy.sum", "numpy.nansum")(_mk_red(r_sum, None))
handler("numpy.prod", "numpy.product")(_mk_red(r_prod, None))
handler("numpy.all", "numpy.alltrue")(_mk_red2(r_all, "bool"))
handler("numpy.any", "numpy.sometrue")(_mk_red2(r_any, "bool"))
handler("numpy.amax", "numpy.max", "numpy.nanmax")(_mk_red2(r_max, None, True))
handler("numpy.amin", "numpy.min", "numpy.nanmin")(_mk_red2(r_min, None, True))


@N("mean", "average")
@spec("a axis", 1)
def np_mean(I, a, axis):
    x = need(I, a)
    if isinstance(x, Opq):
        return x
    s = call_named(I, "numpy.sum", [a] + ([axis] if axis is not None else []), {})
    ax = None if is_none(I, axis) else const_int(I, axis)
    n = x.size() if ax is None else x.shape[ax]
    return binop(I, "Div", s, n)


@N("ptp")
@spec("a", 1)
def np_ptp(I, a):
    return binop(I, "Sub", call_named(I, "numpy.amax", [a], {}), call_named(I, "numpy.amin", [a], {}))


@N("count_nonzero")
@spec("a axis", 1)
def np_count_nonzero(I, a, axis):
    x = need(I, a)
    if isinstance(x, Opq):
        return x
    b = as_bool_arr(x)
    if x.ndim == 0:
        b = ravel(I, b)
    ax = None if is_none(I, axis) or b.ndim == 1 else const_int(I, axis)
    return reduce_axis(I, b, ax, r_sum(I), "int")


def cum(I, a, axis, op, big, dtype=None):
    x = need(I, a)
    if isinstance(x, Opq):
        return x
    if not plain_dtype(I, dtype) and not (dtype_of(I, dtype) == "int" and x.dtype in ("int", "bool")):
        return I.opq("dtype of a cumulative operation")
    if is_none(I, axis):
        x = ravel(I, x)
        ax = 0
    else:
        ax = const_int(I, axis)
        if ax is None:
            return I.opq("axis")
        if ax < 0:
            ax += x.ndim
    dt = "int" if x.dtype == "bool" or x.dtype in NARROW else x.dtype
    if x.ndim == 1 and x.flat is not None:
        out, acc = [], None
        for e in x.flat:
            if not isinstance(e, T) or isinstance(acc, Opq):
                acc = Opq("cumulative operation")
            else:
                acc = t.as_num(e) if acc is None else op(acc, t.as_num(e))
            out.append(acc)
        return I.mk_arr(flat_arr(out, dt))

    def fn(ix):
        lam = lam_elem(I, lambda i: x.get(ix[:ax] + (i,) + ix[ax + 1:]))
        if lam is None:
            return Opq("cumulative operation")
        return big(t.add(ix[ax], ONE), t.relam(lam, t.as_num))

    return I.mk_arr(Arr(x.shape, dt, memo_fn(fn)))


@N("cumsum")
@spec("a axis dtype out", 1)
def np_cumsum(I, a, axis, dtype, out):
    return store_out(I, cum(I, a, axis, t.add, t.vsum, dtype), out)


@N("cumprod")
@spec("a axis dtype out", 1)
def np_cumprod(I, a, axis, dtype, out):
    return store_out(I, cum(I, a, axis, t.mul, t.vprod, dtype), out)


@N("diff", "ediff1d")
@spec("a n axis prepend append", 1)
def np_diff(I, a, n, axis, prepend, append):
    x = need(I, a)
    if isinstance(x, Opq) or const_int(I, n, 1) != 1:
        return I.opq("np.diff")
    if x.ndim != 1:
        return I.opq("np.diff of matrix")
    parts = []
    if prepend is not None and not is_none(I, prepend):
        p = need(I, prepend)
        if isinstance(p, Opq):
            return p
        parts.append(ravel(I, p))
    parts.append(x)
    if append is not None and not is_none(I, append):
        p = need(I, append)
        if isinstance(p, Opq):
            return p
        parts.append(ravel(I, p))
    if len(parts) > 1:
        x = concat_arrs(I, parts, 0)
    if x.flat is not None:
        f = lift(t.sub)
        return I.mk_arr(flat_arr([f(b, c) for b, c in zip(x.flat[1:], x.flat[:-1])], x.dtype))
    m = t.sub(x.shape[0], ONE)
    d = I.decide(t.ge(m, ZERO))
    if d is not TRUE:
        m = t.vmax(m, ZERO)
    f = lift(t.sub)
    return I.mk_arr(Arr((I.simp(m),), x.dtype, memo_fn(
        lambda ix: f(x.get((t.add(ix[0], ONE),)), x.get(ix)))))


@N("trapz")
def np_trapz(I, args, kwargs):
    return I.opq("np.trapz")


@N("argmax", "argmin", "nanargmax")
@spec("a axis", 1)
def np_argmax(I, a, axis):
    return I.opq("np.argmax")


@N("dot", "matmul", "inner", "vdot")
@spec("a b", 2)
def np_dot(I, a, b):
    x, y = need(I, a), need(I, b)
    if isinstance(x, Opq) or isinstance(y, Opq):
        return I.opq("np.dot")
    mul = lift(t.mul)
    if x.ndim == 0 or y.ndim == 0:
        return ew(I, t.mul, [a, b], num_dt)

    def prod(n, f):
        if n.op == "q" and n.args[0] <= 4096:
            vs = [f(q(k)) for k in range(int(n.args[0]))]
            if any(not isinstance(v, T) for v in vs):
                return Opq("np.dot")
            return t.add(ZERO, *vs)
        lam = lam_elem(I, f)
        return Opq("np.dot") if lam is None else t.vsum(n, lam)

    if not same_dim(I, x.shape[-1], y.shape[0 if y.ndim == 1 else -2]):
        return I.opq("np.dot")
    n = x.shape[-1]
    if x.ndim == 1 and y.ndim == 1:
        return prod(n, lambda k: mul(x.get((k,)), y.get((k,))))
    dt = promote(x.dtype, y.dtype)
    if x.ndim == 2 and y.ndim == 1:
        return I.mk_arr(Arr((x.shape[0],), dt, memo_fn(
            lambda ix: prod(n, lambda k: mul(x.get((ix[0], k)), y.get((k,)))))))
    if x.ndim == 1 and y.ndim == 2:
        return I.mk_arr(Arr((y.shape[1],), dt, memo_fn(
            lambda ix: prod(n, lambda k: mul(x.get((k,)), y.get((k, ix[0])))))))
    if x.ndim == 2 and y.ndim == 2:
        return I.mk_arr(Arr((x.shape[0], y.shape[1]), dt, memo_fn(
            lambda ix: prod(n, lambda k: mul(x.get((ix[0], k)), y.get((k, ix[1])))))))
    return I.opq("np.dot")


@N("outer")
@spec("a b", 2)
def np_outer(I, a, b):
    x, y = need(I, a), need(I, b)
    if isinstance(x, Opq) or isinstance(y, Opq):
        return I.opq("np.outer")
    x, y = ravel(I, x), ravel(I, y)
    mul = lift(t.mul)
    return I.mk_arr(Arr((x.shape[0], y.shape[0]), promote(x.dtype, y.dtype), memo_fn(
        lambda ix: mul(x.get((ix[0],)), y.get((ix[1],))))))


@N("linalg.norm")
@spec("x ord axis keepdims", 1)
def np_norm(I, x, ord, axis, keepdims):
    if not is_none(I, ord) and const_int(I, ord) != 2:
        return I.opq("np.linalg.norm")
    a = need(I, x)
    if isinstance(a, Opq):
        return I.opq("np.linalg.norm")
    real = a.dtype in ("float", "int", "bool")
    sq = ew(I, lambda v: t.mul(v, v) if real else t.mul(t.absv(v), t.absv(v)), [x], None)
    kw = {}
    if axis is not None:
        kw["axis"] = axis
    if keepdims is not None:
        kw["keepdims"] = keepdims
    s = call_named(I, "numpy.sum", [sq], kw)
    return call_named(I, "numpy.sqrt", [s], {})


# -- selection -----------------------------------------------------------------------------------


@N("where")
@spec("condition x y", 1)
def np_where(I, condition, x, y):
    if x is None:
        return np_nonzero(I, [condition], {})
    return ew(I, lambda c, a, b: t.ite(tb(c), a, b), [condition, x, y],
              lambda d: promote(d[1], d[2]))


@N("nonzero")
@spec("a", 1)
def np_nonzero(I, a):
    x = need(I, a)
    if isinstance(x, Opq) or x.ndim != 1:
        return I.opq("np.nonzero")
    r = where_indices(I, as_bool_arr(x))
    return Tup([I.mk_arr(r)]) if r is not None else I.opq("np.nonzero")


@N("flatnonzero")
@spec("a", 1)
def np_flatnonzero(I, a):
    x = need(I, a)
    if isinstance(x, Opq):
        return I.opq("np.flatnonzero")
    r = where_indices(I, as_bool_arr(ravel(I, x)))
    return I.mk_arr(r) if r is not None else I.opq("np.flatnonzero")


@N("argwhere")
@spec("a", 1)
def np_argwhere(I, a):
    x = need(I, a)
    if isinstance(x, Opq) or x.ndim != 1:
        return I.opq("np.argwhere")
    r = where_indices(I, as_bool_arr(x))
    if r is None:
        return I.opq("np.argwhere")
    return I.mk_arr(Arr(r.shape + (ONE,), "int", memo_fn(lambda ix: r.get(ix[:1]))))


@N("compress", "extract")
@spec("condition a axis", 2)
def np_compress(I, condition, a, axis):
    m, x = need(I, condition), need(I, a)
    if isinstance(m, Opq) or isinstance(x, Opq) or m.ndim != 1 or not same_dim(I, m.shape[0], x.shape[0]):
        return I.opq("np.compress")
    return ret(I, compress(I, x, as_bool_arr(m)))


@N("take")
@spec("a indices axis", 2)
def np_take(I, a, indices, axis):
    x = I.res(a)
    if not I.is_arr(x):
        xa = need(I, x)
        if isinstance(xa, Opq):
            return xa
        x = I.mk_arr(xa)
    if I.arr(x).ndim != 1:
        return I.opq("np.take")
    return arr_get(I, x, I.res(indices))


@N("clip")
@spec("a a_min a_max out", 1)
def np_clip(I, a, a_min, a_max, out):
    r = a
    if not is_none(I, a_min):
        r = ew(I, t.vmax, [r, a_min], num_dt)
    if not is_none(I, a_max):
        r = ew(I, t.vmin, [r, a_max], num_dt)
    return store_out(I, r, out)


@N("select")
@spec("condlist choicelist default", 2)
def np_select(I, condlist, choicelist, default):
    cs, vs = I.seq_of(condlist), I.seq_of(choicelist)
    if cs is None or vs is None or cs.items is None or vs.items is None or len(cs.items) != len(vs.items):
        return I.opq("np.select")
    r = default if default is not None else ZERO
    for c, v in reversed(list(zip(cs.items, vs.items))):
        r = np_where(I, [c, v, r], {})
    return r


@N("piecewise")
def np_piecewise(I, args, kwargs):
    return I.opq("np.piecewise")


@N("put", "place", "putmask", "copyto", "fill_diagonal")
def np_put(I, args, kwargs):
    if args and I.is_arr(I.res(args[0])):
        from .arrays import havoc_arr

        havoc_arr(I, I.res(args[0]), "np.put")
        return NONE
    I.taint("np.put")
    return NONE


@N("isin", "in1d")
@spec("element test_elements assume_unique invert", 2)
def np_isin(I, element, test_elements, assume_unique, invert):
    b = need(I, test_elements)
    if isinstance(b, Opq):
        return b
    b = ravel(I, b)
    inv = invert is not None and I.decide(I.truth(invert)) is TRUE

    def f(x):
        if b.flat is not None:
            if any(not isinstance(y, T) for y in b.flat):
                return t.mk("opaque", "isin:%d" % id(b), "bool")
            r = t.lor(*[t.eq(x, y) for y in b.flat]) if b.flat else FALSE
        else:
            r = t.exists(b.shape[0], I.lam(lambda i: t.eq(x, b.get((i,)))))
        return t.lnot(r) if inv else r

    return ew(I, f, [element], "bool")


@N("intersect1d", "setdiff1d", "union1d")
def np_setops(I, args, kwargs):
    a, b = need(I, args[0]), need(I, args[1])
    if isinstance(a, Opq) or isinstance(b, Opq):
        return I.opq("set operation")
    if a.mask is not None and b.mask is not None and same_dim(I, a.mask[0], b.mask[0]):
        n, p, r = a.mask[0], a.mask[1], b.mask[1]
        m = Arr((n,), "bool", memo_fn(lambda ix: lift(t.land)(p(ix[0]), r(ix[0]))))
        x = where_indices(I, m)
        return I.mk_arr(x) if x is not None else I.opq("set operation")
    return I.opq("set operation")


# -- sorting -------------------------------------------------------------------------------------


def sort_key(I, xs):
    """Fast path: every element is a rational multiple of one positive monomial."""
    mono = None
    cs = []
    for x in xs:
        if not isinstance(x, T):
            return None
        p = t.to_poly(x)
        if not p:
            cs.append(Fraction(0))
            continue
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if mono is None:
            mono = m
        elif mono != m:
            return None
        cs.append(c)
    if mono:
        s = I.st.facts.sign(t.from_poly({mono: Fraction(1)}))
        if s != frozenset((1,)):
            return None
    return cs


def sort_terms(I, xs):
    """Permutation that sorts xs, or None when the order is not decided."""
    key = sort_key(I, xs)
    if key is not None:
        return sorted(range(len(xs)), key=lambda k: key[k])
    if len(xs) > 300:
        return None
    order = []
    for k, x in enumerate(xs):
        if not isinstance(x, T):
            return None
        j = len(order)
        while j > 0:
            d = I.decide(t.le(xs[order[j - 1]], x))
            if d is TRUE:
                break
            if d is None:
                return None
            j -= 1
        order.insert(j, k)
    return order


@N("sort")
@spec("a axis kind order", 1)
def np_sort(I, a, axis, kind, order):
    x = need(I, a)
    if isinstance(x, Opq) or x.ndim != 1:
        return I.opq("np.sort")
    if x.flat is not None:
        p = sort_terms(I, x.flat)
        if p is not None:
            return I.mk_arr(flat_arr([x.flat[k] for k in p], x.dtype))
    elif increasing(I, x):
        return I.mk_arr(x)
    return ranked(I, x, t.rank, x.dtype) or I.opq("np.sort")


def ranked(I, x, fn, dtype):
    """Array of order statistics of a real array whose order is not known."""
    if x.dtype not in ("float", "int"):
        return None
    lam = I.lam(lambda i: x.get((i,)))
    if has_opaque(lam):
        return None
    n = x.shape[0]
    if n.op == "q":
        return I.mk_arr(flat_arr([fn(n, lam, q(k)) for k in range(int(n.args[0]))], dtype))
    return I.mk_arr(Arr(x.shape, dtype, lambda ix: fn(n, lam, ix[0])))


def has_opaque(x):
    return bool(t.atoms(x, lambda y: y.op == "opaque"))


@N("median")
@spec("a axis", 1)
def np_median(I, a, axis):
    x = need(I, a)
    if isinstance(x, Opq) or x.ndim != 1 or not (is_none(I, axis) or const_int(I, axis) in (0, -1)):
        return I.opq("np.median")
    s = np_sort(I, [a], {})
    if isinstance(s, Opq) or I.decide(t.ge(x.shape[0], ONE)) is not TRUE:
        return I.opq("np.median")
    n, s = x.shape[0], I.arr(s)
    lo, hi = (s.get((t.floor(t.div(m, q(2))),)) for m in (t.sub(n, ONE), n))
    return t.div(t.add(lo, hi), q(2)) if isinstance(lo, T) and isinstance(hi, T) else I.opq("np.median")


def _spread(root):
    @spec("a", 1)
    def h(I, a):
        x = need(I, a)
        if isinstance(x, Opq) or x.dtype not in ("float", "int"):
            return I.opq("np.std")
        d = binop(I, "Sub", a, call_named(I, "numpy.mean", [a], {}))
        v = call_named(I, "numpy.mean", [binop(I, "Mult", d, d)], {})
        return call_named(I, "numpy.sqrt", [v], {}) if root else v

    return h


handler("numpy.var")(_spread(False))
handler("numpy.std")(_spread(True))


def increasing(I, x):
    v = t.fresh("k", "int", sign="nonneg")
    a, b = x.get((v,)), x.get((t.add(v, ONE),))
    if not isinstance(a, T) or not isinstance(b, T):
        return False
    return I.st.facts.add(t.lt(t.add(v, ONE), x.shape[0])).decide(t.le(a, b)) is TRUE


@N("argsort")
@spec("a axis kind order", 1)
def np_argsort(I, a, axis, kind, order):
    x = need(I, a)
    if isinstance(x, Opq) or x.ndim != 1:
        return I.opq("np.argsort")
    if x.flat is not None:
        p = sort_terms(I, x.flat)
        if p is not None:
            return I.mk_arr(flat_arr([q(k) for k in p], "int"))
    elif increasing(I, x):
        return I.mk_arr(Arr(x.shape, "int", lambda ix: ix[0]))
    return ranked(I, x, t.argrank, "int") or I.opq("np.argsort")


@N("unique")
@spec("ar return_index return_inverse return_counts axis", 1)
def np_unique(I, ar, return_index, return_inverse, return_counts, axis):
    x = need(I, ar)
    if isinstance(x, Opq) or x.flat is None:
        return I.opq("np.unique")
    want = [v is not None and I.decide(I.truth(v)) is TRUE
            for v in (return_index, return_inverse, return_counts)]
    p = sort_terms(I, x.flat)
    if p is None:
        return I.opq("np.unique")
    vals, idx, counts, inverse = [], [], [], [None] * len(x.flat)
    key = sort_key(I, x.flat)
    for k in p:
        e = x.flat[k]
        if vals:
            same = TRUE if e is vals[-1] else (
                FALSE if key is not None else I.decide(t.eq(e, vals[-1])))
            if same is None:
                return I.opq("np.unique")
            if same is TRUE:
                counts[-1] += 1
                inverse[k] = len(vals) - 1
                continue
        vals.append(e)
        idx.append(k)
        counts.append(1)
        inverse[k] = len(vals) - 1
    out = [I.mk_arr(flat_arr(vals, x.dtype))]
    if want[0]:
        out.append(I.mk_arr(flat_arr([q(k) for k in idx], "int")))
    if want[1]:
        out.append(I.mk_arr(flat_arr([q(k) for k in inverse], "int")))
    if want[2]:
        out.append(I.mk_arr(flat_arr([q(k) for k in counts], "int")))
    return out[0] if len(out) == 1 else Tup(out)


@N("searchsorted", "digitize", "histogram", "bincount", "interp", "convolve", "correlate")
def np_misc(I, args, kwargs):
    return I.opq("unmodelled numpy function")


# -- misc ----------------------------------------------------------------------------------------


@N("size")
@spec("a axis", 1)
def np_size(I, a, axis):
    x = need(I, a)
    if isinstance(x, Opq):
        return x
    if not is_none(I, axis):
        ax = const_int(I, axis)
        return x.shape[ax] if ax is not None else I.opq("axis")
    return x.size()


@N("shape")
@spec("a", 1)
def np_shape(I, a):
    x = need(I, a)
    return x if isinstance(x, Opq) else Tup(x.shape)


@N("ndim")
@spec("a", 1)
def np_ndim(I, a):
    x = need(I, a)
    return x if isinstance(x, Opq) else q(x.ndim)


@N("isscalar")
@spec("a", 1)
def np_isscalar(I, a):
    x = I.res(a)
    return t.boolean(isinstance(x, T) and x is not NONE)


@N("iscomplexobj", "iscomplex")
@spec("a", 1)
def np_iscomplex(I, a):
    x = need(I, a)
    if isinstance(x, Opq):
        return x
    return t.boolean(x.dtype == "complex")


@N("binary_repr")
@spec("num width", 1)
def np_binary_repr(I, num, width):
    k = I.res(num)
    if not isinstance(k, T):
        return I.opq("np.binary_repr")
    w = const_int(I, width)
    if k.op == "q":
        s = bin(int(k.args[0]))[2:]
        if width is not None and not is_none(I, width):
            if w is None:
                return I.opq("np.binary_repr")
            s = s.zfill(w)
        return t.string(s)
    if width is not None and not is_none(I, width):
        return I.opq("np.binary_repr width")
    if t.is_int(k) and I.decide(t.ge(k, ONE)) is TRUE:
        return t.mk("binrepr", k)
    return I.opq("np.binary_repr")


@N("unpackbits", "packbits", "base_repr")
def np_bits(I, args, kwargs):
    return I.opq("np.unpackbits")


@N("round", "around", "round_")
@spec("a decimals out", 1)
def np_round(I, a, decimals, out):
    d = const_int(I, decimals, 0)
    if d is None:
        return I.opq("np.round")
    s = q(Fraction(10) ** d)
    return ew(I, lambda x: t.div(t.rnd(t.mul(x, s)), s), [a], None)


@N("errstate", "printoptions")
def np_errstate(I, args, kwargs):
    return I.new(NativeC("ctx", None))


@N("seterr", "set_printoptions")
def np_seterr(I, args, kwargs):
    I.effect("global", "numpy", "seterr", I.site())
    return NONE


@N("vectorize")
def np_vectorize(I, args, kwargs):
    fn = args[0]

    def h(I2, a, kw):
        if len(a) == 1 and not kw:
            x = I2.res(a[0])
            if isinstance(x, T):
                return I2.call(fn, [x], {})
            arr = need(I2, x)
            if isinstance(arr, Opq):
                return arr
            if arr.flat is not None:
                vals = [I2.call(fn, [e], {}) for e in arr.flat]
                if all(isinstance(v, T) for v in vals):
                    return I2.mk_arr(Arr(arr.shape, elem_dtype(vals[0]) if vals else "float", None,
                                         flat=vals))
        return I2.opq("np.vectorize")

    return Builtin("vectorized", h)


@N("apply_along_axis", "apply_over_axes", "frompyfunc", "einsum", "tensordot", "kron", "polyval")
def np_unm(I, args, kwargs):
    return I.opq("unmodelled numpy function")


@N("testing.assert_allclose", "testing.assert_array_equal")
def np_testing(I, args, kwargs):
    return NONE


# ufunc methods: numpy.logical_and.reduce etc.

def ufunc_method(I, name, method, args, kwargs):
    """name is the ufunc's name, method reduce/accumulate/outer."""
    red = {"add": r_sum, "multiply": r_prod, "logical_and": r_all, "logical_or": r_any,
           "maximum": r_max, "minimum": r_min, "bitwise_and": r_all, "bitwise_or": r_any}
    if method == "reduce" and name in red:
        x = args[0] if args else kwargs.get("array")
        axis = args[1] if len(args) > 1 else kwargs.get("axis")
        a = need(I, x)
        if isinstance(a, Opq):
            return a
        if a.ndim == 0:
            return a.get(())
        if axis is None:
            ax = 0
        elif I.res(axis) is NONE:
            ax = None
        else:
            ax = const_int(I, axis)
            if ax is None:
                return I.opq("axis")
        if name in ("bitwise_and", "bitwise_or") and a.dtype != "bool":
            return I.opq("ufunc reduce")
        dt = "bool" if name.startswith("logical") else a.dtype
        if a.ndim == 1:
            ax = None
        return reduce_axis(I, a, ax, red[name](I), dt)
    if method == "accumulate":
        if name == "add":
            return call_named(I, "numpy.cumsum", [args[0]] + ([] if len(args) < 2 else [args[1]]), kwargs)
        if name == "multiply":
            return call_named(I, "numpy.cumprod", [args[0]], kwargs)
    if method == "outer" and len(args) == 2 and name in U2:
        x, y = need(I, args[0]), need(I, args[1])
        if isinstance(x, Opq) or isinstance(y, Opq):
            return I.opq("outer")
        f, dt = U2[name]
        g = lift(f)
        k = x.ndim
        return I.mk_arr(Arr(x.shape + y.shape, dt([x.dtype, y.dtype]) if dt else promote(
            x.dtype, y.dtype), memo_fn(lambda ix: g(x.get(ix[:k]), y.get(ix[k:])))))
    if method == "at":
        I.taint("ufunc.at")
        return NONE
    return I.opq("ufunc method")
