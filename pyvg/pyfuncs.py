"""Models of Python builtins, container and text methods, and standard-library modules."""

from fractions import Fraction

from . import terms as t
from .arrays import (DTYPES, arr_get, floated, is_floated, taken, bitlen, cast_arr, cast_elem, count_lam, dtype_of, elem_dtype, ew,
                     lam_elem, lift, memo_fn, norm_index, same_dim, str_to_int, to_arr)
from .npmodel import (HANDLERS, dict_hits, dict_put, has_sym, _cond, binop, call_named, compare, const_int, contains, format_value,
                      get_item, handler, is_listlike, is_numeric_scalar, is_text, join_seq, make_set,
                      path_term, repr_value, seq_get, set_cell, set_item, set_len, set_op, spec,
                      str_format, str_value, subset)
from .npfuncs import mk_array, need, sort_terms, ufunc_method
from .terms import FALSE, NONE, ONE, T, TRUE, ZERO, q
from .values import (Arr, ArrC, Bound, Builtin, CSeq, Cls, DictC, ELLIPSIS, ESeq, EnumMember, FSeq, FileC, Func,
                     ISeq, JsonText, ListC, Mod, NativeC, ObjC, Opq, Partial, Phi, Prop, Ref, Seq, SeqV,
                     SetC, Static, Tup, concat, flat_arr, gate, SymKey)

BUILTINS = """len range enumerate zip sum max min abs float int bool str repr list tuple dict set frozenset
sorted reversed map filter any all isinstance issubclass hasattr getattr setattr type print open round divmod
pow iter next format bin hex oct complex callable id vars hash property staticmethod classmethod super slice
ord chr delattr dir globals locals bytes bytearray input eval exec compile __import__ memoryview""".split()


def builtin_name(I, name):
    from .interp import EXC, OBJECT

    if name == "object":
        return OBJECT
    if name in EXC:
        return EXC[name]
    if name in BUILTINS:
        return Builtin(name)
    if name == "NotImplemented":
        return Builtin("NotImplemented")
    if name == "Ellipsis":
        return ELLIPSIS
    if name == "__debug__":
        return TRUE
    return None


MATH = {"sqrt": "numpy.sqrt", "sin": "numpy.sin", "cos": "numpy.cos", "tan": "numpy.tan",
        "exp": "numpy.exp", "log2": "numpy.log2", "log10": "numpy.log10", "acos": "numpy.arccos",
        "asin": "numpy.arcsin", "atan": "numpy.arctan", "atan2": "numpy.arctan2",
        "fabs": "numpy.fabs", "hypot": "numpy.hypot", "radians": "numpy.radians",
        "degrees": "numpy.degrees", "isnan": "numpy.isnan", "isfinite": "numpy.isfinite",
        "isinf": "numpy.isinf", "copysign": "numpy.copysign", "fmod": "numpy.fmod",
        "pow": "numpy.float_power", "gcd": "numpy.gcd", "expm1": "numpy.expm1",
        "log1p": "numpy.log1p"}
SUBMODULES = {"numpy": ("random", "linalg", "testing", "fft", "ma", "lib", "core", "polynomial"),
              "os": ("path",), "importlib": ("metadata",), "collections": ("abc",),
              "concurrent": ("futures",), "xml": ("etree",)}


def module_attr(I, m, a):
    from .interp import ENUM, EXC

    if m in SUBMODULES and a in SUBMODULES[m]:
        return Mod(m + "." + a)
    if m in ("numpy", "math", "cmath"):
        if a == "pi":
            return t.PI
        if a == "e":
            return t.exp(ONE)
        if a == "tau":
            return t.mul(q(2), t.PI)
        if a in ("inf", "Inf", "infty"):
            return t.INF
        if a in ("nan", "NaN"):
            return t.NAN
        if a == "newaxis":
            return NONE
    if m == "math":
        return Builtin(MATH.get(a, "math." + a))
    if m == "cmath":
        return Builtin({"exp": "numpy.exp", "phase": "numpy.angle", "sqrt": "numpy.sqrt"}.get(
            a, "cmath." + a))
    if m == "numpy":
        if a in ("float", "int", "bool", "complex", "str", "object"):
            return Builtin(a) if a != "object" else Builtin("dtype:object")
        if a in DTYPES:
            return Builtin("dtype:" + a)
        if a in ("r_", "c_"):
            return I.new(NativeC(a, None))
    if m == "enum":
        if a in ("Enum", "IntEnum", "Flag", "StrEnum"):
            return ENUM
        if a == "auto":
            return Builtin("enum.auto")
    if m == "typing" and a == "NamedTuple":
        return Cls("NamedTuple", [], {}, kind="ntbase")
    if m in ("collections.abc",):
        return Builtin("typing." + a)
    if m == "builtins":
        return builtin_name(I, a) or Builtin(a)
    if m == "os" and a in ("linesep", "sep"):
        return t.string("\n" if a == "linesep" else "/")
    if m == "json" and a == "JSONDecodeError":
        return EXC["ValueError"]
    if m == "__future__":
        return NONE
    return Builtin(m + "." + a)


# ----------------------------------------------------------------------------------------------
# attributes of values

LIST_M = "append extend insert pop remove clear index count sort reverse copy".split()
DICT_M = "keys values items get pop update setdefault copy clear popitem".split()
SET_M = ("add discard remove union intersection difference issubset issuperset isdisjoint update copy "
         "symmetric_difference intersection_update difference_update clear pop").split()
STR_M = ("join format upper lower strip lstrip rstrip split splitlines startswith endswith replace zfill "
         "title capitalize encode isdigit count find index rsplit partition rpartition ljust rjust center "
         "isidentifier casefold swapcase removesuffix removeprefix format_map isalpha isalnum").split()
ARR_M = {"sum": "numpy.sum", "prod": "numpy.prod", "max": "numpy.amax", "min": "numpy.amin",
         "mean": "numpy.mean", "cumsum": "numpy.cumsum", "cumprod": "numpy.cumprod",
         "any": "numpy.any", "all": "numpy.all", "flatten": "numpy.ravel", "ravel": "numpy.ravel",
         "repeat": "numpy.repeat", "round": "numpy.round", "clip": "numpy.clip",
         "conj": "numpy.conj", "conjugate": "numpy.conj", "nonzero": "numpy.nonzero",
         "dot": "numpy.dot", "argsort": "numpy.argsort", "transpose": "numpy.transpose",
         "squeeze": "numpy.squeeze", "take": "numpy.take", "argmax": "numpy.argmax",
         "argmin": "numpy.argmin", "ptp": "numpy.ptp", "copy": "numpy.copy",
         "swapaxes": "numpy.swapaxes"}
ARR_OWN = "tolist astype item reshape fill sort tobytes view resize __len__ searchsorted".split()
PATH_M = ("exists is_file is_dir mkdir open write_text with_suffix joinpath resolve unlink touch "
          "read_text").split()


def value_attr(I, o, name):
    if isinstance(o, Ref):
        c = I.cell(o)
        if isinstance(c, ArrC):
            a = I.arr(o)
            if name == "shape":
                return Tup(a.shape)
            if name == "size":
                return a.size()
            if name == "ndim":
                return q(a.ndim)
            if name == "T":
                return call_named(I, "numpy.transpose", [o], {})
            if name == "dtype":
                return I.new(NativeC("dtype", a.dtype))
            if name in ("real", "imag"):
                return call_named(I, "numpy." + name, [o], {})
            if name == "flat":
                return SeqV(I.seq_of(call_named(I, "numpy.ravel", [o], {})))
            if name in ARR_M:
                return Bound(Builtin(ARR_M[name]), o)
            if name in ARR_OWN:
                return Bound(Builtin("ndarray." + name), o)
        elif isinstance(c, ListC):
            if name in LIST_M:
                return Bound(Builtin("list." + name), o)
            if name == "__class__":
                return Builtin("list")
            if name in ("shape", "size", "tolist", "dtype", "astype"):
                I.raise_exc("AttributeError", "'list' object has no attribute '%s'" % name)
        elif isinstance(c, DictC):
            if name in DICT_M:
                return Bound(Builtin("dict." + name), o)
        elif isinstance(c, SetC):
            if name in SET_M:
                return Bound(Builtin("set." + name), o)
        elif isinstance(c, FileC):
            if name in ("write", "writelines", "close", "flush", "__enter__", "__exit__"):
                return Bound(Builtin("file." + name), o)
            if name == "name":
                return c.path
        elif isinstance(c, NativeC):
            if c.kind == "path":
                if name in PATH_M:
                    return Bound(Builtin("path." + name), o)
                if name in ("suffix", "stem", "name"):
                    return t.mk("strfn", "path" + name, c.data)
                if name == "parent":
                    return I.new(NativeC("path", t.mk("strfn", "pathparent", c.data)))
            if c.kind == "dtype":
                if name in ("name", "kind", "char"):
                    return t.mk("opaque", "dtype-%s-%s" % (name, c.data), "str")
            return Bound(Builtin(c.kind + "." + name), o)
    if isinstance(o, T):
        if t.is_string(o):
            if name in STR_M:
                return Bound(Builtin("str." + name), o)
            if name == "__class__":
                return Builtin("str")
        elif is_numeric_scalar(o):
            if name == "real":
                return t.real(t.as_num(o))
            if name == "imag":
                return t.imag(t.as_num(o))
            if name in ("item", "tolist", "__float__", "copy"):
                return Builtin("identity", lambda I2, a, k: o)
            if name in ("conjugate", "conj"):
                return Builtin("conj", lambda I2, a, k: t.conj(t.as_num(o)))
            if name == "shape":
                return Tup(())
            if name == "size":
                return ONE
            if name == "ndim":
                return ZERO
            if name == "is_integer":
                return Builtin("is_integer", lambda I2, a, k: t.eq(t.floor(t.as_num(o)), t.as_num(o)))
            if name == "bit_length":
                return Builtin("bit_length", lambda I2, a, k: bitlen_or(I2, o))
            if name == "astype":
                return Bound(Builtin("ndarray.astype"), o)
            if name in ARR_M and name not in ("copy",):
                return Bound(Builtin(ARR_M[name]), o)
            if name in ("flatten", "ravel"):
                return Bound(Builtin("numpy.atleast_1d"), o)
            if name == "as_integer_ratio":
                return I.opq("as_integer_ratio")
        elif o is NONE:
            I.raise_exc("AttributeError", "'NoneType' object has no attribute '%s'" % name)
    if isinstance(o, Builtin):
        if o.name.startswith("numpy.") and name in ("reduce", "accumulate", "outer", "at", "reduceat"):
            uf = o.name[len("numpy."):]
            return Builtin(o.name + "." + name,
                           lambda I2, a, k: ufunc_method(I2, uf, name, a, k))
        if name in ("__name__", "__qualname__"):
            return t.string(o.name.split(".")[-1])
        return Builtin(o.name + "." + name)
    if isinstance(o, (Tup, SeqV)):
        if name in ("index", "count"):
            return Bound(Builtin("list." + name), o)
        if isinstance(o, Tup) and o.ntcls is not None:
            if name == "_asdict":
                return Builtin("_asdict", lambda I2, a, k: I2.new(DictC(
                    {n: (TRUE, v) for n, v in zip(o.ntcls.fields, o.items)})))
            if name == "_replace":
                def rep(I2, a, k):
                    return Tup([k.get(n, v) for n, v in zip(o.ntcls.fields, o.items)], o.ntcls)
                return Builtin("_replace", rep)
            v, _ = o.ntcls.lookup(name)
            if isinstance(v, Prop):
                return I.call(v.fget, [o], {})
            if isinstance(v, Func):
                return Bound(v, o)
        if isinstance(o, SeqV) and o.kind == "str" and name in ("count",):
            return Bound(Builtin("list.count"), o)
    if isinstance(o, Bound) and name in ("__name__",):
        return I.get_attr(o.func, name)
    if isinstance(o, JsonText):
        return I.opq("text method of JSON text")
    return I.opq("attribute %s of %r" % (name, o))


def bitlen_or(I, o):
    if o.op == "q":
        return q(int(o.args[0]).bit_length())
    if I.decide(t.ge(o, ONE)) is TRUE:
        return bitlen(o)
    return I.opq("bit_length")


# ----------------------------------------------------------------------------------------------
# builtins


@handler("len")
def py_len(I, args, kwargs):
    v = I.res(args[0])
    if isinstance(v, Opq):
        return v
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ArrC):
            return I.arr(v).shape[0]
        if isinstance(c, DictC):
            if c.opaque or c.open_keys():
                return I.opq("len of unknown dictionary")
            return t.add(ZERO, *[t.as_num(k) for k, _ in c.entries.values()])
        if isinstance(c, SetC):
            return set_len(I, c)
        if isinstance(c, ObjC):
            m, _ = c.cls.lookup("__len__")
            if m is not None:
                return I.call(m, [v], {})
            I.raise_exc("TypeError", "object has no len()")
    if isinstance(v, T):
        if is_numeric_scalar(v) or v is NONE:
            I.raise_exc("TypeError", "object has no len()")
        if v.op == "str":
            return q(len(v.args[0]))
        if v.op == "binrepr":
            return bitlen(v.args[0])
        if t.is_string(v):
            return t.mk("strlen", v)
        return I.opq("len")
    if isinstance(v, SeqV) and v.kind in ("gen", "iter"):
        I.raise_exc("TypeError", "object of this type has no len()")
    sq = I.seq_of(v)
    return sq.n if sq is not None else I.opq("len")


def int_arg(I, v):
    v = I.res(v)
    if not isinstance(v, T) or not is_numeric_scalar(v):
        if isinstance(v, T) and (t.is_string(v) or v is NONE):
            I.raise_exc("TypeError", "cannot be interpreted as an integer")
        return None
    v = I.simp(t.as_num(v))
    if v.op == "q" and v.args[0].denominator != 1:
        I.raise_exc("TypeError", "'float' object cannot be interpreted as an integer")
    return v


@handler("range")
def py_range(I, args, kwargs):
    vs = [int_arg(I, a) for a in args]
    if any(v is None for v in vs) or not 1 <= len(vs) <= 3:
        return I.opq("range")
    lo, hi, st = ZERO, vs[0], ONE
    if len(vs) >= 2:
        lo, hi = vs[0], vs[1]
    if len(vs) == 3:
        st = vs[2]
    if st.op != "q" or st is ZERO:
        if st is ZERO:
            I.raise_exc("ValueError", "range() arg 3 must not be zero")
        if I.decide(t.gt(st, ZERO)) is not TRUE:
            return I.opq("range step")
    if st is ONE:
        n = t.sub(hi, lo)
    else:
        n = t.ceil(t.div(t.sub(hi, lo), st))
    d = I.decide(t.ge(n, ZERO))
    if d is FALSE:
        n = ZERO
    elif d is None:
        n = t.vmax(n, ZERO)
    n = I.simp(n)
    if n.op == "q":
        return SeqV(ESeq([t.add(lo, t.mul(st, q(k))) for k in range(int(n.args[0]))]), "range")
    return SeqV(FSeq(n, lambda i: t.add(lo, t.mul(st, i))), "range")


@handler("enumerate")
@spec("iterable start", 1)
def py_enumerate(I, iterable, start):
    s0 = I.res(start) if start is not None else ZERO
    v = I.res(iterable)
    sq = I.seq_of(v)
    if sq is None or not isinstance(s0, T):
        return I.opq("enumerate")
    if sq.items is not None:
        r = ESeq([Tup([t.add(s0, q(k)), x]) for k, x in enumerate(sq.items)])
        if I.is_arr(v) and I.arr(v).ndim == 1:
            # iteration over an array reads the elements when they are reached
            r.live_get = lambda i: Tup([t.add(s0, q(i)), taken(I.arr(v), I.arr(v).get((q(i),)))])
        elif I.is_list(v):
            r.live_get = lambda i: Tup([t.add(s0, q(i)), I.cell(v).seq.get(q(i))])
        return SeqV(r)
    r = FSeq(sq.n, lambda i: Tup([t.add(s0, i), sq.get(i)]))
    if isinstance(v, Ref):
        r.src = v
    return SeqV(r)


@handler("zip")
def py_zip(I, args, kwargs):
    kw = dict(kwargs)
    strict = kw.pop("strict", None)
    sqs = [I.seq_of(a) for a in args]
    if kw or any(s is None for s in sqs):
        return I.opq("zip")
    if not sqs:
        return SeqV(ESeq([]))
    if all(s.items is not None for s in sqs):
        return SeqV(ESeq([Tup(x) for x in zip(*[s.items for s in sqs])]))
    n = sqs[0].n
    for s in sqs[1:]:
        if not same_dim(I, n, s.n):
            d = I.decide(t.le(n, s.n))
            if d is TRUE:
                continue
            n = s.n if d is FALSE else t.vmin(n, s.n)
    n = I.simp(n)
    return SeqV(FSeq(n, lambda i: Tup([s.get(i) for s in sqs])))


@handler("zip_longest", "itertools.zip_longest")
def py_zip_longest(I, args, kwargs):
    return I.opq("zip_longest")


def seq_arg(I, v):
    return I.seq_of(v)


@handler("sum")
@spec("iterable start", 1)
def py_sum(I, iterable, start):
    v = I.res(iterable)
    s = I.res(start) if start is not None else ZERO
    sq = I.seq_of(v)
    if sq is None:
        return I.opq("sum")
    if sq.items is not None:
        r = s
        for x in sq.items:
            r = I.binop(_ADD, r, x)
        return r
    return fold_seq(I, sq, s)


import ast as _ast

_ADD = _ast.Add()
_MUL = _ast.Mult()


def fold_seq(I, sq, s):
    if isinstance(sq, CSeq):
        r = s
        for p in sq.parts:
            r = fold_seq(I, p, r) if p.items is None else _fold_items(I, p.items, r)
        return r
    if isinstance(sq, ISeq):
        return I.fork_value(sq.c, lambda: fold_any(I, sq.a, s), lambda: fold_any(I, sq.b, s))
    lam = lam_elem(I, lambda i: sq.get(i))
    if lam is None or not is_numeric_scalar(s):
        return I.opq("sum")
    return t.add(s, t.vsum(sq.n, t.relam(lam, t.as_num)))


def _fold_items(I, items, r):
    for x in items:
        r = I.binop(_ADD, r, x)
    return r


def fold_any(I, sq, s):
    return _fold_items(I, sq.items, s) if sq.items is not None else fold_seq(I, sq, s)


@handler("any")
@spec("iterable", 1)
def py_any(I, iterable):
    return quant(I, iterable, t.lor, t.exists, FALSE)


@handler("all")
@spec("iterable", 1)
def py_all(I, iterable):
    return quant(I, iterable, t.land, t.forall, TRUE)


def quant(I, v, small, big, unit):
    v = I.res(v)
    if isinstance(v, Opq):
        return v
    if isinstance(v, Ref) and isinstance(I.cell(v), SetC):
        c = I.cell(v)
        if c.pred is not None:
            return I.opq("any/all over index set")
        if small is t.lor:
            return t.lor(*[t.land(k, I.truth(x)) for k, x in c.items]) if c.items else FALSE
        return t.land(*[t.implies(k, I.truth(x)) for k, x in c.items])
    sq = I.seq_of(v)
    if sq is None:
        return I.opq("any/all")
    return quant_seq(I, sq, small, big, unit)


def quant_seq(I, sq, small, big, unit):
    if sq.items is not None:
        return small(*[I.truth(x) for x in sq.items]) if sq.items else unit
    if isinstance(sq, CSeq):
        return small(*[quant_seq(I, p, small, big, unit) for p in sq.parts])
    if isinstance(sq, ISeq):
        return t.ite(sq.c, quant_seq(I, sq.a, small, big, unit), quant_seq(I, sq.b, small, big, unit))
    f = getattr(sq, "filt", None)
    if f is not None and hasattr(sq, "elem_at"):
        n, lam = f
        if small is t.lor:
            return big(n, I.lam(lambda i: t.land(t.apply_lam(lam, i), I.truth(sq.elem_at(i)))))
        return big(n, I.lam(lambda i: t.implies(t.apply_lam(lam, i), I.truth(sq.elem_at(i)))))
    return big(sq.n, I.lam(lambda i: I.truth(sq.get(i))))


def extremum(I, args, kwargs, small, big, name):
    kw = dict(kwargs)
    default = kw.pop("default", None)
    key = kw.pop("key", None)
    if kw:
        return I.opq(name)
    if len(args) == 1:
        v = I.res(args[0])
        c = I.cell(v) if isinstance(v, Ref) else None
        if isinstance(c, SetC) and c.pred is None and key is None and c.items and c.items[0][0] is TRUE:
            xs = [(p, I.res(x)) for p, x in c.items]
            if all(isinstance(x, T) and is_numeric_scalar(x) for _, x in xs):
                r = t.as_num(xs[0][1])
                for p, x in xs[1:]:
                    r = t.ite(p, small(r, t.as_num(x)), r)
                return r
        sq = I.seq_of(args[0])
        if sq is None:
            return I.opq(name)
        if sq.items is None:
            if key is not None:
                return I.opq(name)
            lam = lam_elem(I, lambda i: sq.get(i))
            if lam is None:
                return I.opq(name)
            empty = t.le(sq.n, ZERO)
            if default is None:
                d = I.decide(empty)
                if d is TRUE:
                    I.raise_exc("ValueError", "%s() arg is an empty sequence" % name)
                if d is None:
                    I.raise_exc("ValueError", "%s() arg is an empty sequence" % name, empty)
                return big(sq.n, t.relam(lam, t.as_num))
            return I.gatev(empty, default, big(sq.n, t.relam(lam, t.as_num)))
        items = list(sq.items)
    else:
        items = list(args)
    if not items:
        if default is not None:
            return default
        I.raise_exc("ValueError", "%s() arg is an empty sequence" % name)
    items = [I.res(x) for x in items]
    if key is not None:
        keys = [I.res(I.call(key, [x], {})) for x in items]
        if not all(isinstance(k, T) and is_numeric_scalar(k) for k in keys):
            return I.opq(name)
        r, rk = items[0], keys[0]
        for x, k in zip(items[1:], keys[1:]):
            c = t.gt(k, rk) if name == "max" else t.lt(k, rk)
            r = I.gatev(c, x, r)
            rk = t.ite(c, k, rk)
        return r
    if all(isinstance(x, T) and is_numeric_scalar(x) for x in items):
        return small(*[t.as_num(x) for x in items])
    if any(isinstance(x, T) and (t.is_string(x) or x is NONE) for x in items) and any(
            isinstance(x, T) and is_numeric_scalar(x) for x in items):
        I.raise_exc("TypeError", "ordering not supported")
    return I.opq(name)


@handler("max")
def py_max(I, args, kwargs):
    return extremum(I, args, kwargs, t.vmax, t.amax, "max")


@handler("min")
def py_min(I, args, kwargs):
    return extremum(I, args, kwargs, t.vmin, t.amin, "min")


@handler("abs")
def py_abs(I, args, kwargs):
    return call_named(I, "numpy.abs", args, kwargs) if not is_listlike(I, I.res(args[0])) else \
        I.raise_exc("TypeError", "bad operand type for abs()")


@handler("float", "dtype:float64", "dtype:float_", "dtype:double")
def py_float(I, args, kwargs):
    if not args:
        return ZERO
    x = I.res(args[0])
    if isinstance(x, T):
        if is_numeric_scalar(x):
            return floated(t.as_num(x))
        if x is NONE:
            I.raise_exc("TypeError", "float() argument must be a string or a real number")
        if x.op == "str":
            try:
                s = x.args[0].strip()
                if s.lower() in ("inf", "infinity"):
                    return t.INF
                if s.lower() == "nan":
                    return t.NAN
                return q(Fraction(s))
            except ValueError:
                I.raise_exc("ValueError", "could not convert string to float")
        return I.opq("float of text")
    if I.is_arr(x):
        a = I.arr(x)
        if a.flat is not None and len(a.flat) == 1:
            return a.flat[0]
        return I.opq("float of array")
    if is_listlike(I, x) or I.is_dict(x):
        I.raise_exc("TypeError", "float() argument must be a string or a real number")
    return I.opq("float")


@handler("int", "dtype:int64", "dtype:int_", "dtype:int32")
def py_int(I, args, kwargs):
    if not args:
        return ZERO
    x = I.res(args[0])
    if len(args) > 1 or kwargs:
        if isinstance(x, T) and x.op == "str":
            b = const_int(I, args[1] if len(args) > 1 else kwargs.get("base"), 10)
            if b is not None:
                return q(int(x.args[0], b))
        return I.opq("int")
    if isinstance(x, T):
        if is_numeric_scalar(x):
            return t.trunc(t.as_num(x))
        if x is NONE:
            I.raise_exc("TypeError", "int() argument must be a string or a real number")
        r = str_to_int(x)
        if r is not None:
            return r
        return I.opq("int of text")
    if I.is_arr(x):
        a = I.arr(x)
        if a.flat is not None and len(a.flat) == 1 and isinstance(a.flat[0], T):
            return t.trunc(a.flat[0])
    return I.opq("int")


@handler("complex", "dtype:complex128")
def py_complex(I, args, kwargs):
    vs = [I.res(a) for a in args]
    if not vs or not all(isinstance(v, T) and is_numeric_scalar(v) for v in vs) or kwargs:
        return I.opq("complex")
    r = t.as_num(vs[0])
    if len(vs) > 1:
        r = t.add(r, t.mul(t.IMAG, t.as_num(vs[1])))
    return r


@handler("bool", "dtype:bool_")
def py_bool(I, args, kwargs):
    if not args:
        return FALSE
    x = I.res(args[0])
    if isinstance(x, Opq):
        return x
    return I.truth(x)


@handler("str", "dtype:str_")
def py_str(I, args, kwargs):
    if not args:
        return t.string("")
    return str_value(I, args[0])


@handler("repr")
def py_repr(I, args, kwargs):
    return repr_value(I, args[0])


@handler("format")
def py_format(I, args, kwargs):
    return format_value(I, args[0], args[1] if len(args) > 1 else t.string(""))


@handler("bin")
def py_bin(I, args, kwargs):
    x = I.res(args[0])
    if isinstance(x, T) and x.op == "q":
        return t.string(bin(int(x.args[0])))
    if isinstance(x, T) and I.decide(t.ge(x, ONE)) is TRUE:
        return t.cat(t.string("0b"), t.mk("binrepr", x))
    return I.opq("bin")


@handler("list")
def py_list(I, args, kwargs):
    if not args:
        return I.mk_list(ESeq([]))
    v = I.res(args[0])
    if isinstance(v, Opq):
        return v
    sq = I.seq_of(v)
    if sq is None:
        return I.opq("list")
    return I.mk_list(copy_seq(sq))


def copy_seq(sq):
    if sq.items is not None:
        e = ESeq(sq.items)
        e.lit = getattr(sq, "lit", None)
        e.npint = getattr(sq, "npint", False)
        return e
    return sq


@handler("tuple")
def py_tuple(I, args, kwargs):
    if not args:
        return Tup([])
    v = I.res(args[0])
    if isinstance(v, (Opq, Tup)):
        return v
    sq = I.seq_of(v)
    if sq is None:
        return I.opq("tuple")
    if sq.items is not None:
        return Tup(sq.items)
    return SeqV(sq, "tuple")


@handler("set", "frozenset")
def py_set(I, args, kwargs):
    if not args:
        return I.new(SetC([]))
    v = I.res(args[0])
    if isinstance(v, Opq):
        return v
    c = set_cell(I, v)
    if c is not None:
        return I.new(SetC(c.items, c.pred))
    return make_set(I, I.seq_of(v))


@handler("dict", "collections.OrderedDict")
def py_dict(I, args, kwargs):
    r = I.new(DictC({}))
    if args:
        v = I.res(args[0])
        if I.is_dict(v):
            c = I.cell(v)
            I.put(r, DictC(dict(c.entries), c.opaque), mut=False)
        else:
            sq = I.seq_of(v)
            if sq is None or sq.items is None:
                I.put(r, DictC({}, True), mut=False)
            else:
                for p in sq.items:
                    pq = I.seq_of(p)
                    if pq is None or pq.items is None or len(pq.items) != 2:
                        I.put(r, DictC({}, True), mut=False)
                        break
                    set_item(I, r, pq.items[0], pq.items[1])
    for k, v in kwargs.items():
        set_item(I, r, t.string(k), v)
    return r


@handler("collections.defaultdict")
def py_defaultdict(I, args, kwargs):
    d = args[0] if args else None
    return I.new(DictC({}, default=d))


@handler("sorted")
def py_sorted(I, args, kwargs):
    v = I.res(args[0])
    sq = I.seq_of(v)
    if sq is None:
        return I.opq("sorted")
    key, rev = kwargs.get("key"), kwargs.get("reverse")
    rv = rev is not None and I.decide(I.truth(rev))
    if rv is None:
        return I.opq("sorted")
    if sq.items is None:
        if key is None and rv is not TRUE and I.is_arr(v):
            r = call_named(I, "numpy.sort", [v], {})
            if isinstance(r, Ref):
                return I.mk_list(I.seq_of(r))
        return I.opq("sorted")
    items = [I.res(x) for x in sq.items]
    keys = items if key is None else [I.res(I.call(key, [x], {})) for x in items]
    order = None
    if all(isinstance(k, T) and k.op == "str" for k in keys):
        order = sorted(range(len(items)), key=lambda j: keys[j].args[0], reverse=rv is TRUE)
    elif all(isinstance(k, T) and is_numeric_scalar(k) for k in keys):
        order = sort_terms(I, keys if rv is not TRUE else [t.neg(t.as_num(k)) for k in keys])
    elif all(isinstance(k, Tup) for k in keys):
        order = sort_tuples(I, keys)
        if rv is TRUE:
            order = None
    if order is None and key is None and rv is not TRUE and all(isinstance(x, T) and t.is_num(x) for x in items):
        r = call_named(I, "numpy.sort", [I.mk_arr(flat_arr([t.as_num(x) for x in items], "float"))], {})
        return I.mk_list(ESeq(list(I.arr(r).flat))) if isinstance(r, Ref) else I.opq("sorted")
    if order is None:
        return I.opq("sorted")
    return I.mk_list(ESeq([items[j] for j in order]))


def sort_tuples(I, keys):
    """Stable lexicographic order of tuples of numbers and texts, or None when it is not decided."""
    def before(a, b):
        for x, y in zip(a.items, b.items):
            x, y = I.res(x), I.res(y)
            if not (isinstance(x, T) and isinstance(y, T)):
                return None
            if x.op == "str" and y.op == "str":
                if x is not y:
                    return x.args[0] < y.args[0]
                continue
            if not (is_numeric_scalar(x) and is_numeric_scalar(y)):
                return None
            x, y = t.as_num(x), t.as_num(y)
            if x is y:
                continue
            d = I.decide(t.lt(x, y))
            if d is TRUE:
                return True
            e = I.decide(t.lt(y, x))
            if e is TRUE:
                return False
            if d is not FALSE or e is not FALSE:
                return None
        return len(a.items) < len(b.items)

    order = []
    for k in range(len(keys)):
        j = len(order)
        while j > 0:
            d = before(keys[k], keys[order[j - 1]])
            if d is None:
                return None
            if not d:
                break
            j -= 1
        order.insert(j, k)
    return order


@handler("reversed")
def py_reversed(I, args, kwargs):
    sq = I.seq_of(args[0])
    if sq is None:
        return I.opq("reversed")
    if sq.items is not None:
        return SeqV(ESeq(sq.items[::-1]))
    return SeqV(FSeq(sq.n, lambda i: sq.get(t.sub(t.sub(sq.n, ONE), i))))


@handler("map")
def py_map(I, args, kwargs):
    f = args[0]
    sqs = [I.seq_of(a) for a in args[1:]]
    if any(s is None for s in sqs):
        return I.opq("map")
    if all(s.items is not None for s in sqs):
        return SeqV(ESeq([I.call(f, list(x), {}) for x in zip(*[s.items for s in sqs])]), "iter")
    z = py_zip(I, list(args[1:]), {})
    from .loops import map_symbolic

    sq = map_symbolic(I, z.seq, lambda v: I.call(f, list(v.items), {}))
    return SeqV(sq) if sq is not None else I.opq("map")


@handler("filter")
def py_filter(I, args, kwargs):
    sq = I.seq_of(args[1])
    f = I.res(args[0])
    if sq is None or sq.items is None:
        return I.opq("filter")
    parts = []
    for x in sq.items:
        c = I.truth(x if f is NONE else I.call(f, [x], {}))
        d = I.decide(c)
        if d is TRUE:
            parts.append(ESeq([x]))
        elif d is None:
            parts.append(ISeq(c, ESeq([x]), ESeq([])))
    return SeqV(concat(parts))


@handler("iter")
def py_iter(I, args, kwargs):
    sq = I.seq_of(args[0])
    if sq is None:
        return I.opq("iter")
    return I.new(NativeC("iterator", (sq, 0)))


@handler("next")
def py_next(I, args, kwargs):
    v = I.res(args[0])
    if isinstance(v, Ref) and isinstance(I.cell(v), NativeC) and I.cell(v).kind == "iterator":
        sq, k = I.cell(v).data
        if sq.items is not None and k < len(sq.items):
            I.put(v, NativeC("iterator", (sq, k + 1)), mut=False)
            return sq.items[k]
        if sq.items is not None:
            if len(args) > 1:
                return args[1]
            I.raise_exc("StopIteration", "")
    if isinstance(v, SeqV):
        sq = v.seq
        if sq.items is not None:
            # a generator expression consumed once
            if sq.items:
                return sq.items[0]
            if len(args) > 1:
                return args[1]
            I.raise_exc("StopIteration", "")
        if len(args) > 1:
            d = t.le(sq.n, ZERO)
            return I.gatev(d, args[1], sq.get(ZERO))
        d = I.decide(t.le(sq.n, ZERO))
        if d is FALSE:
            return sq.get(ZERO)
    return I.opq("next")


TYPEMAP = {}


def is_type(I, v, ty):
    """Condition that isinstance(v, ty), or None."""
    ty = I.res(ty)
    if isinstance(ty, Tup):
        rs = [is_type(I, v, x) for x in ty.items]
        return None if any(r is None for r in rs) else t.lor(*rs)
    v = I.res(v)
    if isinstance(v, Phi):
        a, b = is_type(I, v.a, ty), is_type(I, v.b, ty)
        return None if a is None or b is None else t.ite(v.c, a, b)
    if isinstance(v, Opq):
        return None
    if isinstance(ty, Cls):
        if isinstance(v, EnumMember):
            return t.boolean(ty in v.cls.mro())
        if I.is_obj(v):
            return t.boolean(ty in I.cell(v).cls.mro() or ty.name == "object")
        if isinstance(v, Tup) and v.ntcls is not None:
            return t.boolean(ty is v.ntcls)
        if ty.name == "object":
            return TRUE
        return FALSE
    if not isinstance(ty, Builtin):
        return None
    n = ty.name
    if isinstance(v, EnumMember) and n in ("str", "int"):
        return t.boolean(v.cls.issub(n))
    kinds = type_names(I, v)
    if kinds is None:
        return None
    if n in kinds[0]:
        return TRUE
    if n in kinds[1]:
        return None
    return FALSE


def type_names(I, v):
    """(names v certainly is an instance of, names it may be an instance of)."""
    if isinstance(v, T):
        if v is NONE:
            return {"NoneType"}, set()
        if t.is_bool(v):
            return {"bool", "int", "numbers.Integral", "numbers.Number", "numbers.Real"}, {
                "numpy.bool_", "dtype:bool_"}
        if t.is_string(v):
            return {"str", "typing.Sequence", "typing.Iterable", "typing.Hashable"}, {"dtype:str_"}
        if v.op == "sym" and t.SYM_PROPS.get(v, {}).get("input") and not is_floated(v):
            return {"numbers.Number", "numbers.Real", "numbers.Complex"} | (
                {"int", "numbers.Integral", "numbers.Rational"} if t.is_int(v) else {"float"}), set()
        if t.is_num(v):
            num = {"numbers.Number"}
            may = {"float", "int", "numbers.Real", "numbers.Integral", "complex", "numpy.number",
                   "numpy.floating", "numpy.integer", "numpy.generic", "dtype:float64", "dtype:int64",
                   "numbers.Complex"}
            return num, may
        return None
    if isinstance(v, Tup):
        return {"tuple", "typing.Sequence", "typing.Iterable", "typing.Collection",
                "typing.Sized"}, set()
    if isinstance(v, SeqV):
        if v.kind == "tuple":
            return {"tuple", "typing.Sequence", "typing.Iterable"}, set()
        return {"typing.Iterable"}, set()
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ListC):
            return {"list", "typing.Sequence", "typing.Iterable", "typing.MutableSequence",
                    "typing.Collection", "typing.Sized"}, set()
        if isinstance(c, ArrC):
            return {"numpy.ndarray", "dtype:ndarray", "typing.Iterable", "typing.Sized",
                    "typing.Collection"}, set()
        if isinstance(c, DictC):
            return {"dict", "typing.Mapping", "typing.Iterable", "typing.MutableMapping"}, set()
        if isinstance(c, SetC):
            return {"set", "frozenset", "typing.Iterable", "typing.Set"}, set()
        if isinstance(c, NativeC) and c.kind == "path":
            return {"pathlib.Path", "os.PathLike", "pathlib.PurePath"}, set()
        return {"object"}, set()
    if isinstance(v, (Func, Bound, Builtin, Partial)):
        return {"typing.Callable", "types.FunctionType"}, set()
    return None


@handler("isinstance")
def py_isinstance(I, args, kwargs):
    r = is_type(I, args[0], args[1])
    if r is None:
        v = I.res(args[0])
        return t.mk("opaque", "isinstance:%d" % (v.id if isinstance(v, T) else id(v)), "bool")
    return r


@handler("issubclass")
def py_issubclass(I, args, kwargs):
    a, b = I.res(args[0]), I.res(args[1])
    if isinstance(a, Cls) and isinstance(b, Cls):
        return t.boolean(b in a.mro())
    return I.opq("issubclass")


@handler("callable")
def py_callable(I, args, kwargs):
    v = I.res(args[0])
    if isinstance(v, (Func, Bound, Builtin, Partial, Cls)):
        return TRUE
    if isinstance(v, T):
        return FALSE
    return I.opq("callable")


@handler("type")
def py_type(I, args, kwargs):
    v = I.res(args[0])
    if I.is_obj(v):
        return I.cell(v).cls
    if isinstance(v, EnumMember):
        return v.cls
    if isinstance(v, T):
        if v is NONE:
            return Builtin("NoneType")
        if t.is_string(v):
            return Builtin("str")
        if t.is_bool(v):
            return Builtin("bool")
        names = type_names(I, v)
        if names and not names[1]:
            return Builtin("int" if "int" in names[0] else "float")
        return I.opq("type of number")
    if isinstance(v, Tup):
        return v.ntcls or Builtin("tuple")
    if I.is_list(v):
        return Builtin("list")
    if I.is_dict(v):
        return Builtin("dict")
    if I.is_arr(v):
        return Builtin("numpy.ndarray")
    return I.opq("type")


@handler("getattr")
def py_getattr(I, args, kwargs):
    n = I.res(args[1])
    if not (isinstance(n, T) and n.op == "str"):
        if isinstance(n, T) and n.op == "ite":
            return I.fork_value(n.args[0], lambda: py_getattr(I, [args[0], n.args[1]] + args[2:], {}),
                                lambda: py_getattr(I, [args[0], n.args[2]] + args[2:], {}))
        return I.opq("getattr")
    if len(args) > 2:
        o = I.res(args[0])
        h = has_attr(I, o, n.args[0])
        if h is False:
            return args[2]
        if h is None:
            return I.opq("getattr")
    return I.get_attr(args[0], n.args[0])


def has_attr(I, o, name):
    if I.is_obj(o):
        c = I.cell(o)
        return name in c.fields or c.cls.lookup(name)[0] is not None
    if isinstance(o, Cls):
        return o.lookup(name)[0] is not None
    if isinstance(o, T):
        if o is NONE:
            return False
        if is_numeric_scalar(o) and name in ("__len__", "__iter__", "__getitem__", "tolist", "shape"):
            return False if name.startswith("__") else None
        if t.is_string(o):
            return name in STR_M or name in ("__len__", "__iter__", "__getitem__")
        return None
    if I.is_arr(o):
        return name in ARR_M or name in ARR_OWN or name in (
            "shape", "size", "ndim", "dtype", "T", "real", "imag", "__len__", "__iter__", "__getitem__")
    if I.is_list(o):
        return name in LIST_M or name in ("__len__", "__iter__", "__getitem__")
    if isinstance(o, Tup):
        return name in ("index", "count", "__len__", "__iter__", "__getitem__")
    if I.is_dict(o):
        return name in DICT_M or name in ("__len__", "__iter__", "__getitem__")
    return None


@handler("hasattr")
def py_hasattr(I, args, kwargs):
    o, n = I.res(args[0]), I.res(args[1])
    if not (isinstance(n, T) and n.op == "str"):
        return I.opq("hasattr")
    h = has_attr(I, o, n.args[0])
    return t.boolean(h) if h is not None else I.opq("hasattr")


@handler("setattr", "object.__setattr__")
def py_setattr(I, args, kwargs):
    n = I.res(args[1])
    if not (isinstance(n, T) and n.op == "str"):
        I.taint("setattr")
        return NONE
    o = I.res(args[0])
    if I.is_obj(o):
        c = I.cell(o)
        p, _ = c.cls.lookup(n.args[0])
        if not isinstance(p, Prop):
            fs = dict(c.fields)
            fs[n.args[0]] = args[2]
            I.put(o, ObjC(c.cls, fs))
            return NONE
    I.set_attr(o, n.args[0], args[2])
    return NONE


@handler("vars")
def py_vars(I, args, kwargs):
    if args and I.is_obj(I.res(args[0])):
        return I.get_attr(args[0], "__dict__")
    return I.opq("vars")


@handler("id", "hash")
def py_id(I, args, kwargs):
    return I.opq("id")


@handler("print")
def py_print(I, args, kwargs):
    f = kwargs.get("file")
    if f is not None and isinstance(I.res(f), Ref) and isinstance(I.cell(I.res(f)), FileC):
        c = I.cell(I.res(f))
        parts = []
        sep = kwargs.get("sep", t.string(" "))
        for i, a in enumerate(args):
            if i:
                parts.append(sep)
            parts.append(str_value(I, a))
        parts.append(kwargs.get("end", t.string("\n")))
        if all(isinstance(p, T) for p in parts):
            I.effect("write", c.uid, t.cat(*parts))
        else:
            I.effect("write", c.uid, Opq("print"))
        return NONE
    I.effect("print", I.site())
    return NONE


@handler("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings")
def py_warn(I, args, kwargs):
    I.effect("warn", I.site())
    return NONE


@handler("round")
def py_round(I, args, kwargs):
    return call_named(I, "numpy.round", args, {"decimals" if k == "ndigits" else k: v
                                               for k, v in kwargs.items()})


@handler("divmod")
def py_divmod(I, args, kwargs):
    return Tup([binop(I, "FloorDiv", *args), binop(I, "Mod", *args)])


@handler("pow", "math.pow", "operator.pow")
def py_pow(I, args, kwargs):
    if len(args) != 2:
        return I.opq("pow")
    return binop(I, "Pow", args[0], args[1])


@handler("slice")
def py_slice(I, args, kwargs):
    from .values import SliceV

    a = list(args)
    if len(a) == 1:
        return SliceV(NONE, a[0], NONE)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)


@handler("ord")
def py_ord(I, args, kwargs):
    x = I.res(args[0])
    return q(ord(x.args[0])) if isinstance(x, T) and x.op == "str" else I.opq("ord")


@handler("chr")
def py_chr(I, args, kwargs):
    x = I.res(args[0])
    return t.string(chr(int(x.args[0]))) if isinstance(x, T) and x.op == "q" else I.opq("chr")


@handler("object.__init__", "object.__init_subclass__")
def py_objinit(I, args, kwargs):
    o = I.res(args[0]) if args else None
    if I.is_obj(o) and I.cell(o).cls.issub("BaseException"):
        c = I.cell(o)
        fs = dict(c.fields)
        fs["args"] = Tup(args[1:])
        I.st.heap[o.id] = ObjC(c.cls, fs)
    return NONE


@handler("object.__str__", "object.__repr__")
def py_objstr(I, args, kwargs):
    o = I.res(args[0])
    if I.is_obj(o) and I.cell(o).cls.issub("BaseException"):
        a = I.cell(o).fields.get("args")
        if isinstance(a, Tup) and len(a.items) == 1:
            return str_value(I, a.items[0])
        if isinstance(a, Tup) and not a.items:
            return t.string("")
    return I.opq("object text")


# ----------------------------------------------------------------------------------------------
# math, itertools, functools, operator, copy


@handler("math.floor", "math.ceil", "math.trunc")
def m_floor(I, args, kwargs):
    return I.opq("math")


def _m(name, f):
    @handler(name)
    def h(I, args, kwargs):
        x = I.res(args[0])
        if isinstance(x, T) and is_numeric_scalar(x):
            return f(t.as_num(x))
        if I.is_arr(x) and I.arr(x).flat is not None and len(I.arr(x).flat) == 1:
            return f(I.arr(x).flat[0])
        return I.opq(name)


_m("math.floor", t.floor)
_m("math.ceil", t.ceil)
_m("math.trunc", t.trunc)


@handler("math.log")
def m_log(I, args, kwargs):
    xs = [I.res(a) for a in args]
    if not all(isinstance(x, T) and is_numeric_scalar(x) for x in xs):
        return I.opq("math.log")
    if len(xs) == 2:
        if xs[1] is q(2):
            return t.log2(t.as_num(xs[0]))
        return t.div(t.log(t.as_num(xs[0])), t.log(t.as_num(xs[1])))
    return t.log(t.as_num(xs[0]))


@handler("math.isclose", "cmath.isclose")
@spec("a b rel_tol abs_tol", 2)
def m_isclose(I, a, b, rel_tol, abs_tol):
    a, b = I.res(a), I.res(b)
    rt = rel_tol if rel_tol is not None else q(Fraction("1e-9"))
    at = abs_tol if abs_tol is not None else ZERO
    if not all(isinstance(x, T) for x in (a, b, rt, at)):
        return I.opq("math.isclose")
    d = t.absv(t.sub(a, b))
    return t.le(d, t.vmax(t.mul(rt, t.vmax(t.absv(a), t.absv(b))), at))


@handler("math.fsum")
def m_fsum(I, args, kwargs):
    return py_sum(I, args, kwargs)


@handler("math.prod")
def m_prod(I, args, kwargs):
    sq = I.seq_of(args[0])
    if sq is None:
        return I.opq("math.prod")
    if sq.items is not None:
        r = ONE
        for x in sq.items:
            r = I.binop(_MUL, r, x)
        return r
    lam = lam_elem(I, lambda i: sq.get(i))
    return t.vprod(sq.n, lam) if lam is not None else I.opq("math.prod")


@handler("math.factorial", "math.comb", "math.perm")
def m_fact(I, args, kwargs):
    import math

    xs = [I.res(a) for a in args]
    if all(isinstance(x, T) and x.op == "q" for x in xs):
        return q(math.comb(*[int(x.args[0]) for x in xs]) if len(xs) == 2
                 else math.factorial(int(xs[0].args[0])))
    return I.opq("math")


@handler("itertools.chain")
def it_chain(I, args, kwargs):
    sqs = [I.seq_of(a) for a in args]
    if any(s is None for s in sqs):
        return I.opq("itertools.chain")
    return SeqV(concat(sqs))


@handler("itertools.chain.from_iterable")
def it_chain_from(I, args, kwargs):
    sq = I.seq_of(args[0])
    if sq is None:
        return I.opq("itertools.chain")
    if sq.items is not None:
        return it_chain(I, list(sq.items), {})
    v = t.fresh("i", "int", sign="nonneg")
    row = I.seq_of(sq.get(v))
    if row is None or t.depends(row.n, v):
        return I.opq("itertools.chain")
    m = row.n

    def fn(i):
        r = t.floordiv(i, m) if m is not ONE else i
        return I.seq_of(sq.get(r)).get(t.sub(i, t.mul(m, r)))

    return SeqV(FSeq(t.mul(sq.n, m), fn))


@handler("itertools.accumulate")
def it_accumulate(I, args, kwargs):
    sq = I.seq_of(args[0])
    f = args[1] if len(args) > 1 else kwargs.get("func")
    init = kwargs.get("initial")
    if sq is None:
        return I.opq("accumulate")
    if sq.items is not None:
        out, acc = [], init
        if init is not None and I.res(init) is not NONE:
            out.append(init)
        else:
            acc = None
        for x in sq.items:
            acc = x if acc is None else (I.binop(_ADD, acc, x) if f is None else I.call(f, [acc, x], {}))
            out.append(acc)
        return SeqV(ESeq(out))
    if f is None:
        lam = lam_elem(I, lambda i: sq.get(i))
        if lam is None:
            return I.opq("accumulate")
        if init is None or I.res(init) is NONE:
            return SeqV(FSeq(sq.n, lambda i: t.vsum(t.add(i, ONE), lam)))
        s0 = I.res(init)
        if isinstance(s0, T):
            return SeqV(FSeq(t.add(sq.n, ONE), lambda i: t.add(s0, t.vsum(i, lam))))
    return I.opq("accumulate")


@handler("itertools.repeat")
def it_repeat(I, args, kwargs):
    n = args[1] if len(args) > 1 else kwargs.get("times")
    if n is None:
        return I.opq("itertools.repeat")
    n = I.res(n)
    x = args[0]
    if isinstance(n, T) and n.op == "q":
        return SeqV(ESeq([x] * int(n.args[0])))
    return SeqV(FSeq(n, lambda i: x)) if isinstance(n, T) else I.opq("itertools.repeat")


@handler("itertools.product")
def it_product(I, args, kwargs):
    sqs = [I.seq_of(a) for a in args]
    if kwargs or any(s is None for s in sqs):
        return I.opq("itertools.product")
    if all(s.items is not None for s in sqs):
        import itertools

        return SeqV(ESeq([Tup(x) for x in itertools.product(*[s.items for s in sqs])]))
    if len(sqs) == 2:
        a, b = sqs
        m = b.n
        return SeqV(FSeq(t.mul(a.n, m), lambda i: Tup(
            [a.get(t.floordiv(i, m)), b.get(t.sub(i, t.mul(m, t.floordiv(i, m))))])))
    return I.opq("itertools.product")


@handler("itertools.pairwise")
def it_pairwise(I, args, kwargs):
    sq = I.seq_of(args[0])
    if sq is None:
        return I.opq("pairwise")
    if sq.items is not None:
        return SeqV(ESeq([Tup(p) for p in zip(sq.items[:-1], sq.items[1:])]))
    n = t.sub(sq.n, ONE)
    if I.decide(t.ge(n, ZERO)) is not TRUE:
        n = t.vmax(n, ZERO)
    return SeqV(FSeq(n, lambda i: Tup([sq.get(i), sq.get(t.add(i, ONE))])))


@handler("itertools.count")
def it_count(I, args, kwargs):
    return I.opq("itertools.count")


@handler("itertools.islice")
def it_islice(I, args, kwargs):
    from .npmodel import slice_seq
    from .values import SliceV

    sq = I.seq_of(args[0])
    if sq is None:
        return I.opq("islice")
    a = list(args[1:])
    s = SliceV(NONE, a[0], NONE) if len(a) == 1 else SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)
    r = slice_seq(I, sq, s)
    return SeqV(r) if r is not None else I.opq("islice")


@handler("itertools.starmap")
def it_starmap(I, args, kwargs):
    sq = I.seq_of(args[1])
    if sq is None or sq.items is None:
        return I.opq("starmap")
    return SeqV(ESeq([I.call(args[0], list(I.seq_of(x).items), {}) for x in sq.items]))


@handler("functools.reduce")
def f_reduce(I, args, kwargs):
    sq = I.seq_of(args[1])
    if sq is None or sq.items is None:
        return I.opq("functools.reduce")
    items = list(sq.items)
    if len(args) > 2:
        acc = args[2]
    else:
        if not items:
            I.raise_exc("TypeError", "reduce() of empty iterable")
        acc = items.pop(0)
    for x in items:
        acc = I.call(args[0], [acc, x], {})
    return acc


@handler("functools.partial")
def f_partial(I, args, kwargs):
    return Partial(args[0], args[1:], kwargs)


def _named_partial(name):
    @handler(name)
    def h(I, args, kwargs):
        return Partial(Builtin(name), args, kwargs)


for _n in ("functools.wraps", "functools.lru_cache", "dataclasses.dataclass", "dataclasses.field",
           "functools.cache"):
    _named_partial(_n)


@handler("enum.auto")
def e_auto(I, args, kwargs):
    return t.mk("opaque", "auto:%s" % I.site(), "int")


OPS = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod",
       "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor"}
COPS = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}
for _n, _o in OPS.items():
    handler("operator." + _n)(lambda I, a, k, _o=_o: binop(I, _o, I.res(a[0]), I.res(a[1])))
for _n, _o in COPS.items():
    handler("operator." + _n)(lambda I, a, k, _o=_o: compare(I, _o, I.res(a[0]), I.res(a[1])))


@handler("operator.neg")
def o_neg(I, args, kwargs):
    return I.unop(_ast.USub(), args[0])


@handler("operator.itemgetter")
def o_itemgetter(I, args, kwargs):
    ks = list(args)

    def h(I2, a, k):
        r = [get_item(I2, a[0], x) for x in ks]
        return r[0] if len(r) == 1 else Tup(r)

    return Builtin("itemgetter()", h)


@handler("operator.attrgetter")
def o_attrgetter(I, args, kwargs):
    ks = [I.res(x) for x in args]

    def h(I2, a, k):
        r = []
        for x in ks:
            v = a[0]
            for p in x.args[0].split("."):
                v = I2.get_attr(v, p)
            r.append(v)
        return r[0] if len(r) == 1 else Tup(r)

    return Builtin("attrgetter()", h)


@handler("copy.copy")
def c_copy(I, args, kwargs):
    v = I.res(args[0])
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ArrC):
            return mk_array(I, v, None, True, 0)
        if isinstance(c, (ListC, DictC, SetC, ObjC)):
            return I.new(c)
        return I.opq("copy")
    return v


@handler("copy.deepcopy")
def c_deepcopy(I, args, kwargs):
    return deepcopy(I, I.res(args[0]), {})


def deepcopy(I, v, memo):
    if isinstance(v, Tup):
        return Tup([deepcopy(I, x, memo) for x in v.items], v.ntcls)
    if isinstance(v, Phi):
        return Phi(v.c, deepcopy(I, v.a, memo), deepcopy(I, v.b, memo))
    if not isinstance(v, Ref):
        return v
    if v.id in memo:
        return memo[v.id]
    c = I.cell(v)
    if isinstance(c, ArrC):
        r = mk_array(I, v, None, True, 0)
    elif isinstance(c, ListC):
        if c.seq.items is not None:
            r = I.mk_list(ESeq([deepcopy(I, x, memo) for x in c.seq.items]))
        else:
            sq = c.seq
            r = I.mk_list(FSeq(sq.n, lambda i: deepcopy(I, sq.get(i), {})))
    elif isinstance(c, DictC):
        r = I.new(DictC({k: (b, deepcopy(I, x, memo)) for k, (b, x) in c.entries.items()}, c.opaque,
                        c.default))
    elif isinstance(c, ObjC):
        r = I.new(ObjC(c.cls, {k: deepcopy(I, x, memo) for k, x in c.fields.items()}))
    elif isinstance(c, SetC):
        r = I.new(SetC(c.items, c.pred))
    else:
        return I.opq("deepcopy")
    memo[v.id] = r
    return r


# ----------------------------------------------------------------------------------------------
# list methods


def list_cell(I, v):
    v = I.res(v)
    return v, I.cell(v).seq


@handler("list.append")
def l_append(I, args, kwargs):
    r, sq = list_cell(I, args[0])
    if len(args) != 2:
        I.raise_exc("TypeError", "append() takes exactly one argument")
    I.put(r, ListC(concat([sq, ESeq([args[1]])])))
    return NONE


HANDLERS["list.append"] = l_append


@handler("list.extend")
def l_extend(I, args, kwargs):
    r, sq = list_cell(I, args[0])
    new = I.seq_of(args[1])
    if new is None:
        I.put(r, ListC(FSeq(t.mk("opaque", "len:%d" % id(sq), "int"), lambda i: Opq("list contents"))))
        I.taint("extend with unknown iterable")
        return NONE
    I.put(r, ListC(concat([sq, new])))
    return NONE


@handler("list.insert")
def l_insert(I, args, kwargs):
    r, sq = list_cell(I, args[0])
    k = const_int(I, args[1])
    if k == 0:
        I.put(r, ListC(concat([ESeq([args[2]]), sq])))
        return NONE
    if k is not None and sq.items is not None:
        items = list(sq.items)
        items.insert(k, args[2])
        I.put(r, ListC(ESeq(items)))
        return NONE
    if I.decide(t.eq(I.res(args[1]), sq.n)) is TRUE:
        I.put(r, ListC(concat([sq, ESeq([args[2]])])))
        return NONE
    if k == -1:
        lst = FSeq(t.sub(sq.n, ONE), sq.get)
        if I.decide(t.ge(sq.n, ONE)) is TRUE:
            I.put(r, ListC(concat([lst, ESeq([args[2], sq.get(t.sub(sq.n, ONE))])])))
            return NONE
    kk = I.res(args[1])
    x = args[2]
    if isinstance(kk, T) and I.decide(t.land(t.ge(kk, ZERO), t.le(kk, sq.n))) is TRUE:
        n = t.add(sq.n, ONE)
        I.put(r, ListC(FSeq(n, lambda i: gate(t.lt(i, kk), sq.get(i), gate(
            t.eq(i, kk), x, sq.get(t.sub(i, ONE)))))))
        return NONE
    I.put(r, ListC(FSeq(t.add(sq.n, ONE), lambda i: Opq("list.insert"))))
    return NONE


@handler("list.pop")
def l_pop(I, args, kwargs):
    r, sq = list_cell(I, args[0])
    k = args[1] if len(args) > 1 else q(-1)
    k = I.res(k)
    if not isinstance(k, T):
        I.put(r, ListC(FSeq(t.sub(sq.n, ONE), lambda i: Opq("list.pop"))))
        return I.opq("list.pop")
    kk = norm_index(I, k, sq.n, "pop index")
    if sq.items is not None and kk.op == "q":
        items = list(sq.items)
        x = items.pop(int(kk.args[0]))
        I.put(r, ListC(ESeq(items)))
        return x
    x = sq.get(kk)
    n = I.simp(t.sub(sq.n, ONE))
    if kk is I.simp(t.sub(sq.n, ONE)):
        I.put(r, ListC(FSeq(n, sq.get)))
    elif kk is ZERO:
        I.put(r, ListC(FSeq(n, lambda i: sq.get(t.add(i, ONE)))))
    else:
        I.put(r, ListC(FSeq(n, lambda i: gate(t.lt(i, kk), sq.get(i), sq.get(t.add(i, ONE))))))
    return x


@handler("list.clear")
def l_clear(I, args, kwargs):
    I.put(I.res(args[0]), ListC(ESeq([])))
    return NONE


@handler("list.copy")
def l_copy(I, args, kwargs):
    r, sq = list_cell(I, args[0])
    return I.mk_list(copy_seq(sq))


@handler("list.reverse")
def l_reverse(I, args, kwargs):
    r, sq = list_cell(I, args[0])
    rv = py_reversed(I, [r], {})
    I.put(r, ListC(rv.seq if isinstance(rv, SeqV) else FSeq(sq.n, lambda i: Opq("reverse"))))
    return NONE


@handler("list.sort")
def l_sort(I, args, kwargs):
    r, sq = list_cell(I, args[0])
    s = py_sorted(I, [r], kwargs)
    I.put(r, I.cell(s) if I.is_list(s) else ListC(FSeq(sq.n, lambda i: Opq("sort"))))
    return NONE


@handler("list.index")
def l_index(I, args, kwargs):
    sq = I.seq_of(args[0])
    if sq is None or sq.items is None:
        return I.opq("list.index")
    for k, x in enumerate(sq.items):
        d = I.decide(I.val_eq(args[1], x))
        if d is TRUE:
            return q(k)
        if d is None:
            return I.opq("list.index")
    I.raise_exc("ValueError", "not in list")


@handler("list.count")
def l_count(I, args, kwargs):
    sq = I.seq_of(args[0])
    if sq is None:
        return I.opq("list.count")
    x = args[1]
    if sq.items is not None:
        return t.add(ZERO, *[t.as_num(I.val_eq(x, y)) for y in sq.items])
    return count_lam(sq.n, I.lam(lambda i: I.val_eq(sq.get(i), x)))


@handler("list.remove")
def l_remove(I, args, kwargs):
    k = l_index(I, args, kwargs)
    if isinstance(k, T):
        l_pop(I, [args[0], k], {})
    else:
        r, sq = list_cell(I, args[0])
        I.put(r, ListC(FSeq(t.sub(sq.n, ONE), lambda i: Opq("list.remove"))))
    return NONE


# ----------------------------------------------------------------------------------------------
# dictionaries and sets


@handler("dict.keys")
def d_keys(I, args, kwargs):
    c = I.cell(I.res(args[0]))
    if c.opaque or c.open_keys():
        return I.opq("keys of unknown dictionary")
    return dict_seq(I, c, lambda k, v: I.unkey(k))


def dict_seq(I, c, f):
    parts = []
    for k, (cond, v) in c.entries.items():
        d = I.decide(cond)
        if d is FALSE:
            continue
        e = ESeq([f(k, v)])
        parts.append(e if d is TRUE else ISeq(cond, e, ESeq([])))
    return SeqV(concat(parts), "view")


@handler("dict.values")
def d_values(I, args, kwargs):
    c = I.cell(I.res(args[0]))
    return I.opq("values") if c.opaque or c.open_keys() else dict_seq(I, c, lambda k, v: v)


@handler("dict.items")
def d_items(I, args, kwargs):
    c = I.cell(I.res(args[0]))
    return I.opq("items") if c.opaque or c.open_keys() else dict_seq(I, c, lambda k, v: Tup([I.unkey(k), v]))


@handler("dict.get")
def d_get(I, args, kwargs):
    o = I.res(args[0])
    c = I.cell(o)
    default = args[2] if len(args) > 2 else NONE
    if c.opaque:
        return I.opq("item of unknown dictionary")
    k = I.res(args[1])
    key = I.key(k)
    if key is not None and not has_sym(c):
        if key not in c.entries:
            return default
        cond, v = c.entries[key]
        return I.gatev(cond, v, default)
    if isinstance(k, (T, Tup)):
        r = default
        for x, v in reversed(dict_hits(I, c, k)):
            r = I.gatev(x, v, r)
        return r
    return I.opq("dict.get")


@handler("dict.pop")
def d_pop(I, args, kwargs):
    o = I.res(args[0])
    c = I.cell(o)
    key = I.key(I.res(args[1]))
    if c.opaque or key is None or has_sym(c):
        I.put(o, DictC({}, True))
        return I.opq("dict.pop")
    if key not in c.entries:
        if len(args) > 2:
            return args[2]
        I.raise_exc("KeyError", str(key))
    cond, v = c.entries[key]
    if len(args) > 2:
        v = I.gatev(cond, v, args[2])
    else:
        d = I.decide(cond)
        if d is FALSE:
            I.raise_exc("KeyError", str(key))
        if d is None:
            I.raise_exc("KeyError", str(key), t.lnot(cond))
    ent = dict(c.entries)
    del ent[key]
    I.put(o, DictC(ent, default=c.default))
    return v


@handler("dict.setdefault")
def d_setdefault(I, args, kwargs):
    o = I.res(args[0])
    c = I.cell(o)
    k = I.res(args[1])
    key = I.key(k)
    v = args[2] if len(args) > 2 else NONE
    if not c.opaque and isinstance(k, (T, Tup)) and (key is None or has_sym(c)) and (key or I.symkey(k)) is not None:
        for x, w in reversed(dict_hits(I, c, k)):
            v = I.gatev(x, w, v)
        dict_put(I, o, c, k, v)
        return v
    if c.opaque or key is None:
        I.put(o, DictC({}, True))
        return I.opq("setdefault")
    if key in c.entries:
        cond, w = c.entries[key]
        if I.decide(cond) is TRUE:
            return w
        v = I.gatev(cond, w, v)
    ent = dict(c.entries)
    ent[key] = (TRUE, v)
    I.put(o, DictC(ent, default=c.default))
    return v


@handler("dict.update")
def d_update(I, args, kwargs):
    o = I.res(args[0])
    if len(args) > 1:
        v = I.res(args[1])
        src = v
        if not I.is_dict(v):
            src = py_dict(I, [v], {})
        sc = I.cell(src)
        c = I.cell(o)
        if sc.opaque or c.opaque or has_sym(sc) or has_sym(c):
            I.put(o, DictC({}, True))
        else:
            ent = dict(c.entries)
            for k, (cond, x) in sc.entries.items():
                if I.decide(cond) is TRUE or k not in ent:
                    ent[k] = (cond if k not in ent or I.decide(cond) is not TRUE else TRUE, x)
                else:
                    c0, x0 = ent[k]
                    ent[k] = (t.lor(cond, c0), I.gatev(cond, x, x0))
            I.put(o, DictC(ent, default=c.default))
    for k, v in kwargs.items():
        set_item(I, o, t.string(k), v)
    return NONE


@handler("dict.copy")
def d_copy(I, args, kwargs):
    c = I.cell(I.res(args[0]))
    return I.new(DictC(dict(c.entries), c.opaque, c.default))


@handler("dict.clear")
def d_clear(I, args, kwargs):
    I.put(I.res(args[0]), DictC({}))
    return NONE


def as_set(I, v):
    v = I.res(v)
    c = set_cell(I, v)
    if c is not None:
        return c
    r = make_set(I, I.seq_of(v))
    return I.cell(r) if isinstance(r, Ref) else None


def _setm(name, op):
    @handler("set." + name)
    def h(I, args, kwargs):
        a = I.cell(I.res(args[0]))
        for x in args[1:]:
            b = as_set(I, x)
            if b is None:
                return I.opq("set operation")
            r = set_op(I, op, a, b)
            if not isinstance(r, Ref):
                return r
            a = I.cell(r)
        return I.new(SetC(a.items, a.pred))


_setm("union", "or")
_setm("intersection", "and")
_setm("difference", "sub")
_setm("symmetric_difference", "xor")


def _setup(name, op):
    @handler("set." + name)
    def h(I, args, kwargs):
        o = I.res(args[0])
        for x in args[1:]:
            b = as_set(I, x)
            r = set_op(I, op, I.cell(o), b) if b is not None else None
            if not isinstance(r, Ref):
                I.taint("set update")
                return NONE
            I.put(o, I.cell(r))
        return NONE


_setup("update", "or")
_setup("intersection_update", "and")
_setup("difference_update", "sub")


@handler("set.add")
def s_add(I, args, kwargs):
    o = I.res(args[0])
    r = set_op(I, "or", I.cell(o), SetC([(TRUE, args[1])]))
    if isinstance(r, Ref):
        I.put(o, I.cell(r))
    else:
        I.taint("set.add")
    return NONE


@handler("set.isdisjoint")
def s_isdisjoint(I, args, kwargs):
    b = as_set(I, args[1])
    if b is None:
        return I.opq("isdisjoint")
    r = set_op(I, "and", I.cell(I.res(args[0])), b)
    return t.lnot(I.truth(r)) if isinstance(r, Ref) else r


@handler("set.issubset")
def s_issubset(I, args, kwargs):
    b = as_set(I, args[1])
    return subset(I, I.cell(I.res(args[0])), b) if b is not None else I.opq("issubset")


@handler("set.issuperset")
def s_issuperset(I, args, kwargs):
    b = as_set(I, args[1])
    return subset(I, b, I.cell(I.res(args[0]))) if b is not None else I.opq("issuperset")


@handler("set.copy")
def s_copy(I, args, kwargs):
    c = I.cell(I.res(args[0]))
    return I.new(SetC(c.items, c.pred))


# ----------------------------------------------------------------------------------------------
# text methods


@handler("str.join")
def st_join(I, args, kwargs):
    s, v = I.res(args[0]), I.res(args[1])
    if isinstance(v, Opq):
        return v
    return join_seq(I, s, I.seq_of(v))


@handler("str.format")
def st_format(I, args, kwargs):
    return str_format(I, I.res(args[0]), list(args[1:]), kwargs)


def _strm(name):
    @handler("str." + name)
    def h(I, args, kwargs):
        s = I.res(args[0])
        rest = [I.res(a) for a in args[1:]]
        if s.op == "ite":
            return I.fork_value(s.args[0], lambda: h(I, [s.args[1]] + rest, kwargs),
                                lambda: h(I, [s.args[2]] + rest, kwargs))
        if s.op == "str" and not kwargs:
            pa = []
            for a in rest:
                if isinstance(a, T) and a.op == "str":
                    pa.append(a.args[0])
                elif isinstance(a, T) and a.op == "q":
                    pa.append(int(a.args[0]))
                elif isinstance(a, Tup) and all(isinstance(x, T) and x.op == "str" for x in a.items):
                    pa.append(tuple(x.args[0] for x in a.items))
                elif a is NONE:
                    pa.append(None)
                else:
                    return I.opq("str.%s" % name)
            return from_py(I, getattr(s.args[0], name)(*pa))
        if name in ("lower", "upper", "strip", "casefold", "title", "capitalize", "rstrip", "lstrip",
                    "replace", "zfill") and all(isinstance(a, T) for a in rest):
            return t.mk("strfn", name, s, *rest)
        if name in ("startswith", "endswith") and len(rest) == 1:
            alts = [I.res(x) for x in rest[0].items] if isinstance(rest[0], Tup) else rest
            if all(isinstance(a, T) and t.is_string(a) for a in alts):
                return t.lor(*[t.mk("strtest", name, s, a) for a in alts])
        if name in ("isdigit", "isidentifier", "isupper", "islower", "isalpha", "isspace") and not rest:
            return t.mk("strtest", name, s)
        if name in ("startswith", "endswith", "isdigit", "isidentifier"):
            return t.mk("opaque", "str.%s:%d:%s" % (name, s.id, [
                a.id if isinstance(a, T) else 0 for a in rest]), "bool")
        return I.opq("str.%s" % name)


def from_py(I, v):
    if isinstance(v, bool):
        return t.boolean(v)
    if isinstance(v, str):
        return t.string(v)
    if isinstance(v, int):
        return q(v)
    if isinstance(v, tuple):
        return Tup([from_py(I, x) for x in v])
    if isinstance(v, list):
        return I.mk_list(ESeq([from_py(I, x) for x in v]))
    return I.opq("python value")


for _n in STR_M:
    if _n not in ("join", "format", "encode", "format_map"):
        _strm(_n)


# ----------------------------------------------------------------------------------------------
# ndarray methods


@handler("ndarray.tolist")
def nd_tolist(I, args, kwargs):
    o = I.res(args[0])
    if isinstance(o, T):
        return o
    a = I.arr(o)
    if a.ndim == 1:
        if a.flat is not None:
            return I.mk_list(ESeq(a.flat))
        return I.mk_list(FSeq(a.shape[0], lambda i: a.get((i,))))

    def rows(prefix, depth):
        n = a.shape[depth]
        if depth == a.ndim - 1:
            if n.op == "q":
                return I.mk_list(ESeq([a.get(prefix + (q(k),)) for k in range(int(n.args[0]))]))
            return I.mk_list(FSeq(n, lambda i: a.get(prefix + (i,))))
        if n.op == "q":
            return I.mk_list(ESeq([rows(prefix + (q(k),), depth + 1) for k in range(int(n.args[0]))]))
        return I.mk_list(FSeq(n, lambda i: rows(prefix + (i,), depth + 1)))

    return rows((), 0)


@handler("ndarray.astype")
def nd_astype(I, args, kwargs):
    o = I.res(args[0])
    dt = dtype_of(I, args[1] if len(args) > 1 else kwargs.get("dtype"))
    if isinstance(dt, Opq) or dt is None:
        return I.opq("astype")
    if isinstance(o, T):
        return cast_elem(o, elem_dtype(o), dt)
    a = cast_arr(I.arr(o), dt)
    return I.new(ArrC(Arr(a.shape, a.dtype, a.fn, flat=a.flat)))


@handler("ndarray.item")
def nd_item(I, args, kwargs):
    o = I.res(args[0])
    if isinstance(o, T):
        return o
    if len(args) == 2:
        return arr_get(I, o, I.res(args[1]))
    a = I.arr(o)
    if a.flat is not None and len(a.flat) == 1:
        return a.flat[0]
    return I.opq("item")


@handler("ndarray.reshape")
def nd_reshape(I, args, kwargs):
    from .npfuncs import reshape

    if kwargs:
        return I.opq("reshape")
    s = args[1] if len(args) == 2 else Tup(args[1:])
    return reshape(I, args[0], s)


@handler("ndarray.fill")
def nd_fill(I, args, kwargs):
    from .arrays import store_all

    o = I.res(args[0])
    x = I.res(args[1])
    a = I.arr(o)
    if isinstance(x, T):
        y = cast_elem(x, elem_dtype(x), a.dtype) if a.dtype != "num" else x
        store_all(I, o, Arr(a.shape, a.dtype, lambda ix: y))
    else:
        from .arrays import havoc_arr

        havoc_arr(I, o, "fill")
    return NONE


@handler("ndarray.sort")
def nd_sort(I, args, kwargs):
    from .arrays import havoc_arr, store_all

    o = I.res(args[0])
    r = call_named(I, "numpy.sort", [o], {})
    if isinstance(r, Ref):
        store_all(I, o, I.arr(r))
    else:
        havoc_arr(I, o, "sort")
    return NONE


# ----------------------------------------------------------------------------------------------
# snapshots of data


class Snap:
    """Immutable description of a data value."""

    __slots__ = ("kind", "data")

    def __init__(self, kind, data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return "Snap(%s)" % self.kind


def freeze(I, v, depth=0):
    """T | Snap('seq', Seq of frozen) | Snap('dict', entries) | Snap('phi', ...) | Snap('opq')."""
    v = I.res(v)
    if isinstance(v, T):
        return v
    if depth > 12:
        return Snap("opq", "depth")
    if isinstance(v, Phi):
        return Snap("phi", (v.c, freeze(I, v.a, depth + 1), freeze(I, v.b, depth + 1)))
    if isinstance(v, Opq):
        return Snap("opq", v.why)
    if isinstance(v, EnumMember):
        return Snap("enum", v)
    if isinstance(v, JsonText):
        return Snap("opq", "json text")
    if isinstance(v, Tup):
        return Snap("seq", (ESeq([freeze(I, x, depth + 1) for x in v.items]), "tuple"))
    if isinstance(v, SeqV):
        return Snap("seq", (freeze_seq(I, v.seq, depth), "tuple" if v.kind == "tuple" else "iter"))
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ListC):
            return Snap("seq", (freeze_seq(I, c.seq, depth), "list"))
        if isinstance(c, ArrC):
            a = I.arr(v)
            return Snap("arr", Arr(a.shape, a.dtype, a.fn, flat=a.flat))
        if isinstance(c, DictC):
            if c.opaque or any(isinstance(k, SymKey) for k in c.entries):
                return Snap("opq", "unknown dictionary")
            return Snap("dict", {k: (b, freeze(I, x, depth + 1)) for k, (b, x) in c.entries.items()})
        if isinstance(c, ObjC):
            return Snap("obj", (c.cls, {k: freeze(I, x, depth + 1) for k, x in c.fields.items()}))
        if isinstance(c, SetC):
            return Snap("set", c)
    return Snap("other", v)


def freeze_seq(I, sq, depth):
    r = freeze_seq_(I, sq, depth)
    if getattr(sq, "npint", False):
        r.npint = True
    return r


def freeze_seq_(I, sq, depth):
    if sq.items is not None:
        return ESeq([freeze(I, x, depth + 1) for x in sq.items])
    if isinstance(sq, CSeq):
        c = CSeq([])
        c.parts = [freeze_seq(I, p, depth) for p in sq.parts]
        c.n = sq.n
        return c
    if isinstance(sq, ISeq):
        return ISeq(sq.c, freeze_seq(I, sq.a, depth), freeze_seq(I, sq.b, depth))
    heap_st = I.st

    def fn(i):
        saved = I.st
        I.st = heap_st.fork()
        try:
            return freeze(I, sq.get(i), depth + 1)
        finally:
            I.st = saved

    return FSeq(sq.n, fn)


# ----------------------------------------------------------------------------------------------
# files, json, csv


def next_uid(I):
    I.file_uid = getattr(I, "file_uid", 0) + 1
    return I.file_uid


@handler("open", "io.open", "codecs.open")
def py_open(I, args, kwargs):
    names = ["file", "mode", "buffering", "encoding", "errors", "newline"]
    kw = dict(kwargs)
    for n, a in zip(names, args):
        kw[n] = a
    path = path_term(I, kw.get("file", NONE))
    mode = I.res(kw.get("mode", t.string("r")))
    newline = I.res(kw.get("newline", NONE))
    uid = next_uid(I)
    I.effect("open", uid, path, mode, newline, I.site())
    return I.new(FileC(path, mode, newline, uid))


@handler("file.write")
def f_write(I, args, kwargs):
    c = I.cell(I.res(args[0]))
    x = I.res(args[1])
    if isinstance(x, JsonText):
        I.effect("json", c.uid, x.snap, x.opts)
        if x.suffix:
            I.effect("write", c.uid, t.string(x.suffix))
        return I.opq("number of characters")
    I.effect("write", c.uid, x if isinstance(x, T) else Opq("text"))
    return I.opq("number of characters")


@handler("file.writelines")
def f_writelines(I, args, kwargs):
    c = I.cell(I.res(args[0]))
    sq = I.seq_of(args[1])
    r = join_seq(I, t.string(""), sq) if sq is not None else None
    I.effect("write", c.uid, r if isinstance(r, T) else Opq("text"))
    return NONE


@handler("file.close", "file.flush", "file.__enter__", "file.__exit__")
def f_close(I, args, kwargs):
    return I.res(args[0])


def json_opts(I, kwargs):
    o = {}
    for k, v in kwargs.items():
        v = I.res(v)
        o[k] = v
    return o


def json_check(I, snap):
    """Raw arrays and unknown objects are not serialisable."""
    if isinstance(snap, T):
        return
    if snap.kind == "arr":
        I.raise_exc("TypeError", "Object of type ndarray is not JSON serializable")
    if snap.kind in ("obj", "set"):
        I.raise_exc("TypeError", "Object is not JSON serializable")
    if snap.kind == "dict":
        for _, x in snap.data.values():
            json_check(I, x)
    if snap.kind == "seq":
        sq = snap.data[0]
        if getattr(sq, "npint", False):
            some = I.decide(t.gt(sq.n, ZERO))
            if some is not FALSE:
                I.raise_exc("TypeError", "Object of type int64 is not JSON serializable",
                            None if some is TRUE else t.gt(sq.n, ZERO))
        if sq.items is not None:
            for x in sq.items:
                json_check(I, x)
        else:
            v = t.fresh("i", "int", sign="nonneg")
            x = sq.get(v)
            if not isinstance(x, T):
                json_check(I, x)


@handler("json.dump")
def j_dump(I, args, kwargs):
    kw = dict(kwargs)
    obj = args[0] if args else kw.pop("obj")
    fp = args[1] if len(args) > 1 else kw.pop("fp")
    fp = I.res(fp)
    if kw.get("default") is None and kw.get("cls") is None:
        snap = freeze(I, obj)
        json_check(I, snap)
    else:
        snap = Snap("opq", "custom encoder")
    if isinstance(fp, Ref) and isinstance(I.cell(fp), FileC):
        I.effect("json", I.cell(fp).uid, snap, json_opts(I, kw))
    else:
        I.taint("json.dump to unknown file")
    return NONE


@handler("json.dumps")
def j_dumps(I, args, kwargs):
    if kwargs.get("default") is not None or kwargs.get("cls") is not None:
        return I.opq("custom encoder")
    snap = freeze(I, args[0])
    json_check(I, snap)
    return JsonText(snap, json_opts(I, kwargs))


@handler("csv.writer")
def c_writer(I, args, kwargs):
    f = I.res(args[0])
    if not (isinstance(f, Ref) and isinstance(I.cell(f), FileC)):
        return I.opq("csv.writer")
    return I.new(NativeC("csvwriter", (I.cell(f).uid, json_opts(I, kwargs), None, args[1:])))


@handler("csv.DictWriter")
def c_dictwriter(I, args, kwargs):
    kw = dict(kwargs)
    f = args[0] if args else kw.pop("f")
    names = args[1] if len(args) > 1 else kw.pop("fieldnames")
    f = I.res(f)
    sq = I.seq_of(names)
    if not (isinstance(f, Ref) and isinstance(I.cell(f), FileC)) or sq is None:
        return I.opq("csv.DictWriter")
    rv, ea = kw.pop("restval", t.string("")), kw.pop("extrasaction", t.string("raise"))
    return I.new(NativeC("csvwriter", (I.cell(f).uid, json_opts(I, kw), (sq, rv, ea), args[2:])))


@handler("csvwriter.writeheader")
def c_header(I, args, kwargs):
    uid, opts, fields, _ = I.cell(I.res(args[0])).data
    if fields is None:
        return I.opq("writeheader")
    I.effect("csvrow", uid, freeze_seq(I, fields[0], 0), opts)
    return NONE


@handler("csvwriter.writerow")
def c_row(I, args, kwargs):
    uid, opts, fields, _ = I.cell(I.res(args[0])).data
    row = I.res(args[1])
    I.effect("csvrow", uid, row_snap(I, row, fields), opts)
    return NONE


def row_snap(I, row, fields):
    if fields is None:
        sq = I.seq_of(row)
        return freeze_seq(I, sq, 0) if sq is not None else Snap("opq", "row")
    if not I.is_dict(row) or I.cell(row).opaque:
        return Snap("opq", "row")
    ent = I.cell(row).entries
    names = fields[0]
    if names.items is None:
        return Snap("opq", "row")
    keys = []
    for x in names.items:
        x = I.res(x)
        if not (isinstance(x, T) and x.op == "str"):
            return Snap("opq", "row")
        keys.append(x.args[0])
    ea = I.res(fields[2])
    if isinstance(ea, T) and ea.op == "str" and ea.args[0] == "raise":
        for k, (c, _) in ent.items():
            if k not in keys:
                d = I.decide(c)
                if d is FALSE:
                    continue
                I.raise_exc("ValueError", "dict contains fields not in fieldnames",
                            None if d is TRUE else c)
    out = []
    for k in keys:
        if k in ent:
            c, v = ent[k]
            out.append(freeze(I, I.gatev(c, v, fields[1])))
        else:
            out.append(freeze(I, fields[1]))
    return ESeq(out)


@handler("csvwriter.writerows")
def c_rows(I, args, kwargs):
    uid, opts, fields, _ = I.cell(I.res(args[0])).data
    sq = I.seq_of(args[1])
    if sq is None:
        I.effect("csvrow", uid, Snap("opq", "rows"), opts)
        return NONE
    emit_rows(I, sq, uid, opts, fields)
    return NONE


def emit_rows(I, sq, uid, opts, fields):
    if sq.items is not None:
        for r in sq.items:
            I.effect("csvrow", uid, row_snap(I, I.res(r), fields), opts)
        return
    if isinstance(sq, CSeq):
        for p in sq.parts:
            emit_rows(I, p, uid, opts, fields)
        return
    k = t.fresh("k", "int", sign="nonneg")
    saved = I.st
    I.st = saved.fork(t.lt(k, sq.n))
    row = row_snap(I, I.res(sq.get(k)), fields)
    I.st = saved
    I.effect("loop", sq.n, k, (("csvrow", uid, row, opts),))


@handler("pathlib.Path", "pathlib.PurePath")
def p_path(I, args, kwargs):
    if len(args) == 1:
        v = I.res(args[0])
        if isinstance(v, Ref) and isinstance(I.cell(v), NativeC):
            return v
        return I.new(NativeC("path", path_term(I, v)))
    return I.opq("Path")


@handler("path.open")
def p_open(I, args, kwargs):
    return py_open(I, args, kwargs)


@handler("path.write_text")
def p_write_text(I, args, kwargs):
    f = py_open(I, [args[0], t.string("w")], {})
    return f_write(I, [f, args[1]], {})


@handler("path.mkdir", "path.unlink", "path.touch", "os.makedirs", "os.mkdir", "os.remove", "os.unlink",
         "os.rename", "os.replace", "shutil.rmtree", "shutil.copy", "shutil.move", "os.rmdir",
         "os.chmod", "os.system", "subprocess.run", "subprocess.call", "os.chdir", "os.putenv")
def p_effect(I, args, kwargs):
    I.effect("fs", I.site())
    return NONE


@handler("os.fspath")
def p_fspath(I, args, kwargs):
    return path_term(I, args[0])


@handler("os.path.join")
def p_join(I, args, kwargs):
    return t.mk("strfn", "pathjoin", *[path_term(I, a) for a in args])


@handler("os.path.exists", "os.path.isfile", "os.path.isdir", "path.exists", "path.is_file",
         "path.is_dir")
def p_exists(I, args, kwargs):
    return t.mk("opaque", "exists:%s" % I.site(), "bool")


@handler("os.path.splitext", "os.path.basename", "os.path.dirname")
def p_split(I, args, kwargs):
    return I.opq("path operation")


@handler("os.getenv", "os.environ.get", "time.time", "time.perf_counter", "time.monotonic",
         "datetime.datetime.now", "datetime.datetime.utcnow", "random.random", "random.uniform",
         "random.randint", "random.choice", "random.shuffle", "uuid.uuid4", "os.getpid", "os.getcwd",
         "os.urandom", "secrets.token_hex", "time.time_ns", "datetime.date.today", "os.listdir")
def p_nondet(I, args, kwargs):
    I.effect("nondet", I.site())
    return I.opq("environment value")


@handler("logging.getLogger", "logging.info", "logging.debug", "logging.warning", "logging.error",
         "logging.getLogger.info", "logging.getLogger.debug")
def p_log(I, args, kwargs):
    return I.new(NativeC("logger", None))


@handler("logger.info", "logger.debug", "logger.warning", "logger.error", "logger.setLevel",
         "logger.addHandler", "logger.exception", "logger.critical")
def p_log2(I, args, kwargs):
    return NONE


@handler("function.cache_clear", "function.cache_info", "gc.collect", "sys.setrecursionlimit")
def p_noop(I, args, kwargs):
    return NONE


@handler("importlib.metadata.version", "contextlib.suppress", "contextlib.nullcontext")
def p_meta(I, args, kwargs):
    return I.opq("library call")


@handler("collections.namedtuple")
def p_namedtuple(I, args, kwargs):
    fields = I.res(args[1])
    if isinstance(fields, T) and fields.op == "str":
        names = fields.args[0].replace(",", " ").split()
    else:
        sq = I.seq_of(fields)
        if sq is None or sq.items is None:
            return I.opq("namedtuple")
        names = [x.args[0] for x in sq.items]
    c = Cls(I.res(args[0]).args[0], [], {}, kind="namedtuple")
    c.fields = names
    return c


@handler("typing.TypeVar", "typing.cast", "typing.NewType")
def p_typing(I, args, kwargs):
    if len(args) == 2:
        return args[1]
    return Builtin("typing.Any")


for _n in ("isinstance", "type", "print", "list.append", "dict.get", "dict.update", "setattr", "json.dump",
           "json.dumps", "set.add", "csvwriter.writerow", "functools.partial", "typing.cast", "bool", "str",
           "repr", "list.insert", "dict.setdefault", "functools.wraps", "logger.info", "logger.debug"):
    from .npmodel import PHI_OK

    if _n in ("isinstance", "print", "bool", "str", "repr", "functools.partial", "typing.cast"):
        PHI_OK.add(_n)
