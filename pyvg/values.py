"""Abstract values, sequences, arrays and heap cells."""

from . import terms as t
from .terms import T, ZERO, ONE, q

MAXFLAT = 6000


class Value:
    __slots__ = ()


class Ref(Value):
    """Pointer to a heap cell."""

    __slots__ = ("id",)

    def __init__(self, id_):
        self.id = id_

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref(%d)" % self.id


class Tup(Value):
    __slots__ = ("items", "ntcls")

    def __init__(self, items, ntcls=None):
        self.items = tuple(items)
        self.ntcls = ntcls

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Func(Value):
    __slots__ = ("node", "mod", "env", "name", "defaults", "kwdefaults", "cls", "cached", "filename")

    def __init__(self, node, mod, env, name, defaults, kwdefaults, cls=None):
        self.node, self.mod, self.env, self.name = node, mod, env, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.cached = None

    def __repr__(self):
        return "<func %s.%s>" % (self.mod, self.name)


class Cls(Value):
    __slots__ = ("name", "bases", "attrs", "mod", "kind", "node", "fields", "frozen")

    def __init__(self, name, bases, attrs, mod=None, kind="class", node=None):
        self.name, self.bases, self.attrs, self.mod, self.kind, self.node = (
            name, bases, attrs, mod, kind, node)
        self.fields = None
        self.frozen = False

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def issub(self, name):
        return any(c.name == name for c in self.mro())

    def __repr__(self):
        return "<class %s>" % self.name


class EnumMember(Value):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class Bound(Value):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Builtin(Value):
    __slots__ = ("name", "fn")

    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Partial(Value):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class Prop(Value):
    __slots__ = ("fget", "fset", "cached")

    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class Static(Value):
    __slots__ = ("func", "isclass")

    def __init__(self, func, isclass=False):
        self.func, self.isclass = func, isclass


class Super(Value):
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class Mod(Value):
    __slots__ = ("name", "repo")

    def __init__(self, name, repo=False):
        self.name, self.repo = name, repo

    def __repr__(self):
        return "<module %s>" % self.name


class SliceV(Value):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Phi(Value):
    """Gated choice between two values of different shape."""

    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Phi(%r,%r,%r)" % (self.c, self.a, self.b)


class Opq(Value):
    """A value the analysis does not understand."""

    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<opaque %s>" % self.why


class Unbound(Opq):
    """The state of a name that is not bound."""

    __slots__ = ()


class JsonText(Value):
    __slots__ = ("snap", "opts", "suffix")

    def __init__(self, snap, opts, suffix=""):
        self.snap, self.opts, self.suffix = snap, opts, suffix


ELLIPSIS = Builtin("Ellipsis")
NEWAXIS = t.NONE


# ----------------------------------------------------------------------------------------------
# sequences (immutable descriptions; lists and iterators refer to them)


class Seq:
    """n: length term; get(i) -> value; items: explicit Python list or None."""

    items = None

    def get(self, i):
        raise NotImplementedError


class ESeq(Seq):
    def __init__(self, items):
        self.items = list(items)
        self.n = q(len(self.items))

    def get(self, i):
        if isinstance(i, T) and i.op == "q":
            k = int(i.args[0])
            if 0 <= k < len(self.items):
                return self.items[k]
            return Opq("index %d out of range" % k)
        return select(self.items, i)


def select(items, i):
    if not items:
        return Opq("index into empty sequence")
    r = items[-1]
    for k in range(len(items) - 2, -1, -1):
        r = gate(t.eq(i, q(k)), items[k], r)
    return r


def gate(c, a, b):
    """Structure-aware gated value (pure data only)."""
    if c is t.TRUE:
        return a
    if c is t.FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        return t.ite(c, a, b)
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return a
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([gate(c, x, y) for x, y in zip(a.items, b.items)])
    return Phi(c, a, b)


class FSeq(Seq):
    def __init__(self, n, fn, tag=None):
        self.n = n
        self.fn = fn
        self.tag = tag

    def get(self, i):
        return self.fn(i)


class LoopSeq(Seq):
    """The unknown contents of a list at the start of a loop iteration."""

    def __init__(self, base, uid):
        self.base = base
        self.uid = uid
        self.n = t.sym("len!%s" % uid, "int", sign="nonneg")
        self.last = t.sym("last!%s" % uid, "real")

    def get(self, i):
        if i is t.sub(self.n, ONE):
            return self.last
        return Opq("list contents inside loop")


class CSeq(Seq):
    """Concatenation."""

    def __init__(self, parts):
        flat = []
        for p in parts:
            if isinstance(p, CSeq):
                flat.extend(p.parts)
            elif p.items is not None and not p.items:
                continue
            elif flat and p.items is not None and flat[-1].items is not None:
                flat[-1] = ESeq(flat[-1].items + p.items)
            else:
                flat.append(p)
        self.parts = flat
        self.n = t.add(ZERO, *[p.n for p in flat])

    def get(self, i):
        off = ZERO
        branches = []
        for p in self.parts:
            end = t.add(off, p.n)
            branches.append((end, off, p))
            off = end
        if not branches:
            return Opq("index into empty sequence")
        # from the end: index n-1 of the concatenation
        d = t.sub(i, t.sub(self.n, ONE))
        last = branches[-1][2]
        if d.op == "q" and last.items is not None:
            k = int(d.args[0])
            if -k < len(last.items) and k <= 0:
                return last.items[len(last.items) - 1 + k]
        r = None
        for end, start, p in reversed(branches):
            c = t.lt(i, end)
            if c is t.FALSE:
                continue
            low = t.ge(i, start)
            if low is t.FALSE:
                continue
            v = p.get(t.sub(i, start))
            r = v if r is None else gate(c, v, r)
        return r if r is not None else Opq("index out of range")


def concat(parts):
    parts = [p for p in parts]
    if all(p.items is not None for p in parts):
        out = []
        for p in parts:
            out.extend(p.items)
        return ESeq(out)
    c = CSeq(parts)
    if len(c.parts) == 1:
        return c.parts[0]
    return c


class ISeq(Seq):
    """Gated sequence."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.n = t.ite(c, a.n, b.n)

    def get(self, i):
        return gate(self.c, self.a.get(i), self.b.get(i))


def merge_seq(c, a, b):
    if a is b:
        return a
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        return ESeq([gate(c, x, y) for x, y in zip(a.items, b.items)])
    return ISeq(c, a, b)


# ----------------------------------------------------------------------------------------------
# arrays


def is_const_shape(shape):
    return all(d.op == "q" for d in shape)


class Arr:
    """Immutable array content. fn maps a tuple of index terms to an element."""

    __slots__ = ("shape", "dtype", "fn", "flat", "mask")

    def __init__(self, shape, dtype, fn, flat=None, mask=None):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.fn = fn
        self.flat = flat
        self.mask = mask  # (n, pred) when the elements are the indices where pred holds
        if flat is None and is_const_shape(self.shape):
            sz = 1
            for d in self.shape:
                sz *= int(d.args[0])
            if sz <= MAXFLAT:
                self.flat = [fn(ix) for ix in indices(self.shape)]

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        if self.flat is not None:
            if all(i.op == "q" for i in idx):
                k = 0
                for i, d in zip(idx, self.shape):
                    ii, dd = int(i.args[0]), int(d.args[0])
                    if not 0 <= ii < dd:
                        return Opq("array index out of range")
                    k = k * dd + ii
                return self.flat[k]
            if len(self.shape) == 1:
                return select(self.flat, idx[0])
            k = ZERO
            for i, d in zip(idx, self.shape):
                k = t.add(t.mul(k, d), i)
            return select(self.flat, k)
        return self.fn(idx)

    def size(self):
        return t.mul(ONE, *self.shape)


def indices(shape):
    dims = [int(d.args[0]) for d in shape]
    out = [()]
    for d in dims:
        out = [x + (q(i),) for x in out for i in range(d)]
    return out


def flat_arr(items, dtype):
    items = list(items)
    return Arr((q(len(items)),), dtype, None, flat=items)


# ----------------------------------------------------------------------------------------------
# heap cells: treated as immutable records, replaced on write


class Cell:
    __slots__ = ()


class EnvC(Cell):
    __slots__ = ("vars", "parent")

    def __init__(self, vars_, parent):
        self.vars, self.parent = vars_, parent


class ListC(Cell):
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


class SeqV(Value):
    """An immutable iterable (range, zip, generator, tuple of unknown length ...)."""

    __slots__ = ("seq", "kind")

    def __init__(self, seq, kind="iter"):
        self.seq, self.kind = seq, kind


class ArrC(Cell):
    __slots__ = ("arr", "view")

    def __init__(self, arr, view=None):
        self.arr, self.view = arr, view


class SymKey:
    """Dictionary key that is not a constant: a term, or a tuple with one."""

    __slots__ = ("v", "k")

    def __init__(self, v, k):
        self.v, self.k = v, k

    def __eq__(self, other):
        return isinstance(other, SymKey) and self.k == other.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "SymKey(%r)" % (self.v,)


class DictC(Cell):
    """entries: dict key -> (present condition, value); keys are hashable Python constants or SymKey.

    With SymKey entries present, two entries may stand for the same key; they then hold the same value whenever
    their keys are equal and both are present.
    """

    __slots__ = ("entries", "opaque", "default")

    def __init__(self, entries, opaque=False, default=None):
        self.entries, self.opaque, self.default = entries, opaque, default

    def open_keys(self):
        """Whether the number of distinct keys is not determined by the entries."""
        return len(self.entries) > 1 and any(isinstance(k, SymKey) for k in self.entries)


class SetC(Cell):
    """items: list of (present condition, value) or pred=(n, lam over index) for index sets."""

    __slots__ = ("items", "pred")

    def __init__(self, items, pred=None):
        self.items, self.pred = items, pred


class ObjC(Cell):
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class FileC(Cell):
    __slots__ = ("path", "mode", "newline", "uid")

    def __init__(self, path, mode, newline, uid):
        self.path, self.mode, self.newline, self.uid = path, mode, newline, uid


class NativeC(Cell):
    """csv writers and the like."""

    __slots__ = ("kind", "data")

    def __init__(self, kind, data):
        self.kind, self.data = kind, data
