"""Abstract interpreter: builds gated value graphs of the repository's public behaviour.

Source text is parsed with ``ast``; no repository code is ever imported or executed.  Control flow
becomes gates (if-then-else terms), loops of unknown length are summarised by solving their
recurrences, exceptions become conditional exits.  Whatever is not understood becomes ``Opq`` and
can never lead to an alarm.
"""

import ast
import os
import time
from fractions import Fraction

from . import arrays
from . import terms as t
from .facts import Facts
from .terms import FALSE, NONE, ONE, T, TRUE, ZERO, q
from .values import *  # noqa: F401,F403
from .values import (ELLIPSIS, Unbound, Arr, ArrC, Bound, Builtin, CSeq, Cls, DictC, EnumMember, EnvC, ESeq, FileC,
                     FSeq, Func, ISeq, JsonText, ListC, LoopSeq, Mod, NativeC, ObjC, Opq, Partial,
                     Phi, Prop, Ref, Seq, SeqV, SetC, SliceV, Static, Super, Tup, concat, flat_arr,
                     gate, merge_seq, SymKey)


class Dead(Exception):
    """The current path has no normal continuation."""


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class AnalysisBroken(Exception):
    """An anchor the property is about cannot be found."""


class State:
    __slots__ = ("heap", "facts", "effects", "taint")

    def __init__(self, heap, facts, effects=(), taint=()):
        self.heap, self.facts, self.effects, self.taint = heap, facts, effects, taint

    def fork(self, *facts):
        return State(dict(self.heap), self.facts.add(*facts), self.effects, self.taint)


class Exit:
    __slots__ = ("kind", "st", "value", "site")

    def __init__(self, kind, st, value=None, site=None):
        self.kind, self.st, self.value, self.site = kind, st, value, site

    def __repr__(self):
        return "Exit(%s,%r)" % (self.kind, self.value)


class Frame:
    __slots__ = ("env", "mod", "func", "globals_", "nonlocals", "cls", "selfv", "locals_")

    def __init__(self, env, mod, func, cls=None, selfv=None):
        self.env, self.mod, self.func = env, mod, func
        self.globals_, self.nonlocals = set(), set()
        self.cls, self.selfv = cls, selfv
        self.locals_ = None


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception",
    "TypeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "AttributeError": "Exception", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "AssertionError": "Exception", "StopIteration": "Exception", "OSError": "Exception",
    "FileNotFoundError": "OSError", "UnicodeError": "ValueError", "NameError": "Exception",
    "UnboundLocalError": "NameError", "RecursionError": "RuntimeError", "ImportError": "Exception",
    "FileExistsError": "OSError", "PermissionError": "OSError", "Warning": "Exception",
    "DeprecationWarning": "Warning", "UserWarning": "Warning", "FutureWarning": "Warning",
    "RuntimeWarning": "Warning", "FloatingPointError": "ArithmeticError",
    "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "UnicodeDecodeError": "UnicodeError", "IsADirectoryError": "OSError",
}


def make_exceptions():
    out = {}

    def get(n):
        if n not in out:
            b = BUILTIN_EXC[n]
            out[n] = Cls(n, [get(b)] if b else [], {}, kind="exception")
        return out[n]

    for n in BUILTIN_EXC:
        get(n)
    out["IOError"] = out["OSError"]
    out["EnvironmentError"] = out["OSError"]
    return out


EXC = make_exceptions()
OBJECT = Cls("object", [], {}, kind="object")
ENUM = Cls("Enum", [OBJECT], {}, kind="enumbase")


def num_literal(v):
    if isinstance(v, bool):
        return t.boolean(v)
    if isinstance(v, int):
        return q(v)
    if isinstance(v, float):
        if v != v:
            return t.NAN
        if v in (float("inf"), float("-inf")):
            return t.INF if v > 0 else t.mk("neginf")
        return q(Fraction(repr(v)))
    if isinstance(v, complex):
        return t.add(num_literal(v.real), t.mul(t.IMAG, num_literal(v.imag)))
    raise Unsupported("literal")


class Interp:
    def __init__(self, root, package, deadline=None):
        from . import npmodel

        self.root = root
        self.package = package
        self.np = npmodel
        self.mods = {}  # name -> (ast, path, env Ref)
        self.trees = {}
        self.next_id = [0]
        self.st = State({}, Facts())
        self.exits = []
        self.frames = []
        self.steps = 0
        self.max_steps = 30_000_000
        self.deadline = deadline
        self.visited = {}  # function qualified name -> number of times analysed
        self.call_sites = set()
        self.branches = 0
        self.loops_summarised = 0
        self.loops_unrolled = 0
        self.opaque_log = {}
        self.merge_cache = {}
        self.node = None
        self.probing = 0
        self.load_package()
        self.base = self.st

    # -- heap ------------------------------------------------------------------------------------
    def new(self, cell):
        self.next_id[0] += 1
        r = Ref(self.next_id[0])
        self.st.heap[r.id] = cell
        return r

    def cell(self, r):
        return self.st.heap[r.id]

    def put(self, r, cell, mut=True):
        self.st.heap[r.id] = cell
        if mut:
            self.effect("mut", r.id, self.site())

    def effect(self, *e):
        self.st.effects = self.st.effects + (e,)

    def site(self):
        f = self.frames[-1] if self.frames else None
        n = self.node
        path = ""
        if f is not None and f.mod in self.mods:
            path = os.path.relpath(self.mods[f.mod][1], self.root)
        return "%s:%s %s" % (path, getattr(n, "lineno", "?"), f.func if f else "")

    def opq(self, why):
        key = "%s @ %s" % (why, self.site())
        self.opaque_log[key] = self.opaque_log.get(key, 0) + 1
        return Opq(key)

    def taint(self, why):
        self.st.taint = self.st.taint + ("%s @ %s" % (why, self.site()),)

    # -- modules ---------------------------------------------------------------------------------
    def load_package(self):
        pkgdir = os.path.join(self.root, self.package)
        if not os.path.isdir(pkgdir):
            raise AnalysisBroken("package directory %s not found" % pkgdir)
        for d, dirs, files in sorted(os.walk(pkgdir)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    with open(p, encoding="utf-8") as h:
                        src = h.read()
                    try:
                        self.trees[rel] = (ast.parse(src, p), p)
                    except SyntaxError as e:
                        raise AnalysisBroken("%s does not parse: %s" % (p, e))
        self.load_module(self.package)
        for m in sorted(self.trees):
            self.load_module(m)

    def load_module(self, name):
        if name in self.mods:
            return self.mods[name][2]
        if name not in self.trees:
            raise AnalysisBroken("module %s not found" % name)
        if "." in name:
            parent = name.rsplit(".", 1)[0]
            if parent in self.trees and parent not in self.mods:
                self.load_module(parent)
                if name in self.mods:
                    return self.mods[name][2]
        tree, path = self.trees[name]
        env = self.new(EnvC({"__name__": t.string(name), "__doc__": NONE,
                             "__file__": t.string(path)}, None))
        self.mods[name] = (tree, path, env)
        fr = Frame(env, name, "<module>")
        self.frames.append(fr)
        saved = self.exits
        self.exits = []
        try:
            self.exec_block(tree.body)
        except Dead:
            raise AnalysisBroken("module %s cannot be imported" % name)
        finally:
            self.frames.pop()
            self.exits = saved
        return env

    def mod_attr(self, name, attr):
        """Attribute of a module value."""
        if name in self.trees:
            env = self.load_module(name)
            vars_ = self.cell(env).vars
            if attr in vars_:
                return vars_[attr]
            sub = name + "." + attr
            if sub in self.trees:
                self.load_module(sub)
                return Mod(sub, True)
            raise AnalysisBroken("name %r not found in module %s" % (attr, name))
        return self.np.module_attr(self, name, attr)

    def resolve_from(self, mod, node):
        """Absolute module name for an ImportFrom."""
        if not node.level:
            return node.module
        tree, path, _ = self.mods[mod]
        base = mod if os.path.basename(path) == "__init__.py" else mod.rsplit(".", 1)[0]
        for _ in range(node.level - 1):
            base = base.rsplit(".", 1)[0]
        return base + ("." + node.module if node.module else "")

    # -- facts -----------------------------------------------------------------------------------
    def decide(self, c):
        if c is TRUE or c is FALSE:
            return c
        return self.st.facts.decide(c)

    def simp(self, x):
        return self.st.facts.simplify(x) if isinstance(x, T) else x

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exhausted")
        if self.deadline and (self.steps & 1023) == 0 and time.time() > self.deadline:
            raise Budget("time budget exhausted")

    # -- merging ---------------------------------------------------------------------------------
    def gatev(self, c, a, b, floor=None):
        """Value equal to a if c else b."""
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return t.ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.gatev(c, x, y, floor) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return a
            if floor is not None and a.id > floor and b.id > floor:
                key = (c, a.id, b.id)
                if key in self.merge_cache and self.merge_cache[key].id in self.st.heap:
                    return self.merge_cache[key]
                m = self.merge_cell(c, self.st.heap.get(a.id), self.st.heap.get(b.id), floor)
                if m is not None:
                    r = self.new(m)
                    self.merge_cache[key] = r
                    return r
        return Phi(c, a, b)

    def merge_cell(self, c, x, y, floor):
        if x is y:
            return x
        if x is None or y is None or type(x) is not type(y):
            return None
        if isinstance(x, EnvC):
            vs = {}
            for k in list(x.vars) + [k for k in y.vars if k not in x.vars]:
                if k in x.vars and k in y.vars:
                    vs[k] = self.gatev(c, x.vars[k], y.vars[k], floor)
                else:
                    u = Unbound("possibly unbound name %s" % k)
                    vs[k] = Phi(c, x.vars.get(k, u), y.vars.get(k, u))
            return EnvC(vs, x.parent)
        if isinstance(x, ListC):
            if x.seq is y.seq:
                return x
            a, b = x.seq, y.seq
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return ListC(ESeq([self.gatev(c, u, v, floor) for u, v in zip(a.items, b.items)]))
            return ListC(merge_seq(c, a, b))
        if isinstance(x, ArrC):
            if x.view is not None or y.view is not None:
                return None
            a, b = x.arr, y.arr
            if a is b:
                return x
            if a.ndim != b.ndim:
                return None
            return ArrC(merge_arr(c, a, b, self.np.promote))
        if isinstance(x, DictC):
            if x.opaque or y.opaque:
                return DictC({}, True)
            ent = {}
            for k in list(x.entries) + [k for k in y.entries if k not in x.entries]:
                ca, va = x.entries.get(k, (FALSE, None))
                cb, vb = y.entries.get(k, (FALSE, None))
                if va is None:
                    v = vb
                elif vb is None:
                    v = va
                else:
                    v = self.gatev(c, va, vb, floor)
                ent[k] = (t.ite(c, ca, cb), v)
            return DictC(ent, default=x.default)
        if isinstance(x, SetC):
            if x.pred is None and y.pred is None:
                items = [(t.land(c, k), v) for k, v in x.items]
                items += [(t.land(t.lnot(c), k), v) for k, v in y.items]
                return SetC(items)
            if x.pred and y.pred and x.pred[0] is y.pred[0]:
                p, r = x.pred[1], y.pred[1]
                return SetC(None, (x.pred[0], lambda i: t.ite(c, p(i), r(i))))
            return None
        if isinstance(x, ObjC):
            if x.cls is not y.cls:
                return None
            fs = {}
            for k in list(x.fields) + [k for k in y.fields if k not in x.fields]:
                if k in x.fields and k in y.fields:
                    fs[k] = self.gatev(c, x.fields[k], y.fields[k], floor)
                else:
                    u = Opq("possibly missing attribute %s" % k)
                    fs[k] = Phi(c, x.fields.get(k, u), y.fields.get(k, u))
            return ObjC(x.cls, fs)
        return None

    def merge(self, c, sa, sb, nbase, base_heap, effects0):
        """State that is sa when c holds and sb otherwise."""
        if sa is None:
            return sb
        if sb is None:
            return sa
        ea = t.land(*sa.facts.items[nbase:])
        eb = t.land(*sb.facts.items[nbase:])
        facts = Facts(sa.facts.items[:nbase])
        extra = t.ite(c, strip(ea, c), strip(eb, t.lnot(c)))
        facts = facts.add(extra)
        taint = sa.taint + tuple(x for x in sb.taint if x not in sa.taint)
        n0 = len(effects0)
        if sa.effects is sb.effects or sa.effects == sb.effects:
            effects = sa.effects
        else:
            effects = effects0 + (("if", c, sa.effects[n0:], sb.effects[n0:]),)
        heap = dict(sa.heap)
        for k, v in sb.heap.items():
            if k not in heap:
                heap[k] = v
        st = State(heap, facts, effects, taint)
        saved = self.st
        self.st = st
        floor = self.next_id[0]  # ids created before the fork are <= floor of base
        base_floor = max(base_heap) if base_heap else 0
        for k in list(sa.heap):
            x = sa.heap[k]
            y = sb.heap.get(k, x)
            if x is not y and k in base_heap:
                m = self.merge_cell(c, x, y, base_floor)
                if m is None:
                    m = x if isinstance(x, EnvC) else None
                if m is None:
                    self.taint("cannot merge state")
                    m = x
                heap[k] = m
        self.st = saved
        return st

    def merge_many(self, outs, nbase, base_heap, effects0):
        """outs: list of (State, value); returns merged (State, value)."""
        st, val = outs[-1]
        base_floor = max(base_heap) if base_heap else 0
        for s, v in reversed(outs[:-1]):
            c = t.land(*s.facts.items[nbase:])
            # relative condition: strip facts shared with the accumulated state
            shared = [f for f in s.facts.items[nbase:] if f in st.facts.set]
            if shared:
                c = t.land(*[f for f in s.facts.items[nbase:] if f not in st.facts.set])
            m = self.merge(c, s, st, nbase, base_heap, effects0)
            saved = self.st
            self.st = m
            if val is not None or v is not None:
                val = self.gatev(c, v, val, base_floor)
            self.st = saved
            st = m
        return st, val

    # -- calling ---------------------------------------------------------------------------------
    def raise_exc(self, clsname, msg="", cond=None):
        """Record an exception exit (on condition cond, else unconditional)."""
        st = self.st.fork(*([cond] if cond is not None else []))
        saved = self.st
        self.st = st
        obj = self.new(ObjC(EXC[clsname], {"args": Tup([t.string(msg)])}))
        site = self.site()
        self.st = saved
        self.exits.append(Exit("raise", st, obj, site))
        if cond is None:
            raise Dead()
        self.st.facts = self.st.facts.add(t.lnot(cond))

    def call(self, f, args, kwargs, node=None):
        self.tick()
        f = self.res(f)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kwargs, node)
        if isinstance(f, Builtin):
            return self.np.call_builtin(self, f, list(args), dict(kwargs), node)
        if isinstance(f, Cls):
            return self.instantiate(f, list(args), dict(kwargs))
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, node)
        if isinstance(f, Static):
            return self.call(f.func, args, kwargs, node)
        if isinstance(f, Phi):
            return self.fork_value(f.c, lambda: self.call(f.a, args, kwargs, node),
                                   lambda: self.call(f.b, args, kwargs, node))
        if isinstance(f, Ref):
            c = self.cell(f)
            if isinstance(c, ObjC):
                m, k = c.cls.lookup("__call__")
                if m is not None:
                    return self.call(m, [f] + list(args), kwargs, node)
        if any(isinstance(a, (Ref, Phi)) for a in list(args) + list(kwargs.values())):
            self.taint("call of unknown function with mutable arguments")
        return self.opq("call of %r" % (f,))

    def fork_value(self, c, fa, fb):
        """Evaluate fa under c and fb under not c and merge."""
        d = self.decide(c)
        if d is TRUE:
            return fa()
        if d is FALSE:
            return fb()
        base = self.st
        nb, bh, ef = len(base.facts.items), base.heap, base.effects
        outs = []
        vals = []
        for cond, fn in ((c, fa), (t.lnot(c), fb)):
            self.st = base.fork(cond)
            try:
                v = fn()
                outs.append((self.st, v))
            except Dead:
                outs.append(None)
        a, b = outs
        if a is None and b is None:
            self.st = base
            raise Dead()
        if a is None:
            self.st = b[0]
            return b[1]
        if b is None:
            self.st = a[0]
            return a[1]
        m = self.merge(c, a[0], b[0], nb, bh, ef)
        self.st = m
        return self.gatev(c, a[1], b[1], max(bh) if bh else 0)

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        vals = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg:
                vals[a.vararg.arg] = Tup(args[len(names):])
                args = args[: len(names)]
            else:
                self.raise_exc("TypeError", "too many positional arguments")
        elif a.vararg:
            vals[a.vararg.arg] = Tup([])
        for n, v in zip(names, args):
            vals[n] = v
        for k in list(kwargs):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    self.raise_exc("TypeError", "multiple values for argument %s" % k)
                vals[k] = kwargs.pop(k)
        if kwargs:
            if a.kwarg:
                vals[a.kwarg.arg] = self.new(DictC({k: (TRUE, v) for k, v in kwargs.items()}))
            else:
                self.raise_exc("TypeError", "unexpected keyword argument %s" % sorted(kwargs)[0])
        elif a.kwarg:
            vals[a.kwarg.arg] = self.new(DictC({}))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    self.raise_exc("TypeError", "missing argument %s" % n)
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in f.kwdefaults:
                    vals[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_exc("TypeError", "missing argument %s" % x.arg)
        return vals

    def call_func(self, f, args, kwargs):
        if len(self.frames) > 120:
            self.taint("recursion too deep")
            return self.opq("recursion too deep")
        depth = sum(1 for fr in self.frames if fr.func == f.name and fr.mod == f.mod)
        if depth > 24:
            self.taint("recursion too deep")
            return self.opq("recursion too deep in %s" % f.name)
        qn = "%s.%s" % (f.mod, (f.cls.name + "." if f.cls else "") + f.name)
        self.visited[qn] = self.visited.get(qn, 0) + 1
        vals = self.bind(f, args, kwargs)
        if isinstance(f.node, ast.Lambda):
            env = self.new(EnvC(vals, f.env))
            self.frames.append(Frame(env, f.mod, "<lambda>"))
            try:
                return self.eval(f.node.body)
            finally:
                self.frames.pop()
        if f.cached is not None:
            key = self.cache_key(vals)
            if key is not None and key in f.cached:
                r = f.cached[key]
                if not (isinstance(r, Ref) and r.id not in self.st.heap):
                    return r
        body = f.node.body
        is_gen = is_generator(f.node)
        if is_gen:
            return self.call_generator(f, vals)
        env = self.new(EnvC(vals, f.env))
        fr = Frame(env, f.mod, f.name, f.cls,
                   vals.get(f.node.args.args[0].arg) if f.node.args.args else None)
        fr.locals_ = local_names(f.node)
        self.frames.append(fr)
        saved = self.exits
        self.exits = []
        base = self.st
        nb = len(base.facts.items)
        bh = dict(base.heap)
        ef = base.effects
        saved_node = self.node
        try:
            alive = True
            try:
                self.exec_block(body)
            except Dead:
                alive = False
            outs = []
            for e in self.exits:
                if e.kind == "return":
                    outs.append((e.st, e.value))
                else:
                    saved.append(e)
            if alive:
                outs.append((self.st, NONE))
        finally:
            self.frames.pop()
            self.exits = saved
            self.node = saved_node
        if not outs:
            self.st = base
            raise Dead()
        if len(outs) == 1:
            self.st, v = outs[0]
        else:
            self.st, v = self.merge_many(outs, nb, bh, ef)
        if f.cached is not None:
            key = self.cache_key(vals)
            if key is not None:
                f.cached[key] = v
                if isinstance(v, Ref):
                    self.effect("shared", v.id, self.site())
        return v

    def cache_key(self, vals):
        out = []
        for k in sorted(vals):
            v = vals[k]
            if isinstance(v, T):
                out.append((k, v))
            elif isinstance(v, Ref):
                out.append((k, v.id))
            else:
                return None
        return tuple(out)

    def call_generator(self, f, vals):
        """Generators whose body is a straight sequence of yields in loops: collect into a list."""
        env = self.new(EnvC(vals, f.env))
        fr = Frame(env, f.mod, f.name, f.cls)
        fr.locals_ = local_names(f.node)
        acc = self.new(ListC(ESeq([])))
        self.cell(env).vars["@yield"] = acc
        self.frames.append(fr)
        saved = self.exits
        self.exits = []
        base = self.st
        nb, bh, ef = len(base.facts.items), dict(base.heap), base.effects
        try:
            alive = True
            try:
                self.exec_block(f.node.body)
            except Dead:
                alive = False
            outs = []
            for e in self.exits:
                if e.kind == "return":
                    outs.append((e.st, NONE))
                else:
                    saved.append(e)
            if alive:
                outs.append((self.st, NONE))
        finally:
            self.frames.pop()
            self.exits = saved
        if not outs:
            self.st = base
            raise Dead()
        self.st, _ = self.merge_many(outs, nb, bh, ef)
        return SeqV(self.cell(acc).seq, "gen")

    def instantiate(self, cls, args, kwargs):
        if cls.kind == "enum":
            v = args[0] if args else NONE
            conds = []
            for m in enum_members(cls):
                conds.append((self.val_eq(v, m.value), m))
            hit = t.lor(*[c for c, _ in conds]) if conds else FALSE
            d = self.decide(hit)
            if d is FALSE:
                self.raise_exc("ValueError", "not a valid %s" % cls.name)
            if d is None:
                self.raise_exc("ValueError", "not a valid %s" % cls.name, t.lnot(hit))
            r = conds[-1][1]
            for c, m in reversed(conds[:-1]):
                r = self.gatev(c, m, r)
            return r
        if cls.kind == "namedtuple":
            vals = list(args)
            for n in cls.fields[len(vals):]:
                if n in kwargs:
                    vals.append(kwargs[n])
                elif n in cls.attrs:
                    vals.append(cls.attrs[n])
                else:
                    self.raise_exc("TypeError", "missing argument")
            return Tup(vals, cls)
        obj = self.new(ObjC(cls, {}))
        init, owner = cls.lookup("__init__")
        if init is None:
            if cls.kind == "exception" or cls.issub("BaseException"):
                self.st.heap[obj.id] = ObjC(cls, {"args": Tup(args)})
            elif cls.kind == "dataclass" or any(c.kind == "dataclass" for c in cls.mro()):
                self.dataclass_init(cls, obj, args, kwargs)
            elif args or kwargs:
                self.raise_exc("TypeError", "%s() takes no arguments" % cls.name)
            return obj
        if cls.issub("BaseException"):
            self.st.heap[obj.id] = ObjC(cls, {"args": Tup(args)})
        self.call(init, [obj] + args, kwargs)
        return obj

    def dataclass_init(self, cls, obj, args, kwargs):
        names = []
        for c in reversed(cls.mro()):
            for n in c.fields or []:
                if n not in names:
                    names.append(n)
        fields = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n in names:
            if args:
                fields[n] = args.pop(0)
            elif n in kwargs:
                fields[n] = kwargs.pop(n)
            else:
                d, _ = cls.lookup(n)
                if d is None:
                    self.raise_exc("TypeError", "missing argument %s" % n)
                if isinstance(d, Partial) and isinstance(d.func, Builtin) and d.func.name == "dataclasses.field":
                    if "default_factory" in d.kwargs:
                        d = self.call(d.kwargs["default_factory"], [], {})
                    elif "default" in d.kwargs:
                        d = d.kwargs["default"]
                fields[n] = d
        if args or kwargs:
            self.raise_exc("TypeError", "unexpected arguments")
        self.st.heap[obj.id] = ObjC(cls, fields)
        post, _ = cls.lookup("__post_init__")
        if post is not None:
            self.call(post, [obj], {})

    # -- values ----------------------------------------------------------------------------------
    def res(self, v):
        """Resolve gated values whose condition is decided."""
        while isinstance(v, Phi):
            d = self.decide(v.c)
            if d is TRUE:
                v = v.a
            elif d is FALSE:
                v = v.b
            else:
                return v
        if isinstance(v, T) and v.op == "ite":
            d = self.decide(v.args[0])
            if d is TRUE:
                return self.res(v.args[1])
            if d is FALSE:
                return self.res(v.args[2])
        return v

    def dist(self, v, fn):
        """Apply fn to a value, distributing over gates."""
        v = self.res(v)
        if isinstance(v, Phi):
            return self.fork_value(v.c, lambda: self.dist(v.a, fn), lambda: self.dist(v.b, fn))
        return fn(v)

    def truth(self, v, sure=True):
        """Truth value; sure: the value is certainly asked for (not one side of a join)."""
        v = self.res(v)
        if isinstance(v, T):
            if t.is_bool(v):
                return v
            if v is NONE:
                return FALSE
            if v.op == "str":
                return t.boolean(bool(v.args[0]))
            if v.op == "ite":
                return t.ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
            if t.is_num(v):
                return t.ne(v, ZERO)
            if t.is_string(v):
                if v.op == "cat":
                    for a in v.args:
                        if a.op == "str":
                            return TRUE
                return t.ne(v, t.string(""))
            return t.mk("opaque", "truth:%d" % v.id, "bool")
        if isinstance(v, Tup):
            return t.boolean(bool(v.items))
        if isinstance(v, SeqV):
            return t.gt(v.seq.n, ZERO)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListC):
                return t.gt(c.seq.n, ZERO)
            if isinstance(c, DictC):
                if c.opaque:
                    return t.mk("opaque", "truth:dict%d" % v.id, "bool")
                return t.lor(*[k for k, _ in c.entries.values()]) if c.entries else FALSE
            if isinstance(c, SetC):
                if c.pred is not None:
                    n, p = c.pred
                    return t.exists(n, self.lam(p))
                return t.lor(*[k for k, _ in c.items]) if c.items else FALSE
            if isinstance(c, ArrC):
                a = self.arr(v)
                if a.flat is not None and len(a.flat) == 1:
                    return self.truth(a.flat[0])
                if sure and a.ndim == 1:
                    many = t.gt(a.shape[0], ONE)
                    d = self.decide(many)
                    if d is not FALSE:
                        self.raise_exc("ValueError", "the truth value of an array is ambiguous", None if d is TRUE else many)
                    if a.flat is not None:
                        return FALSE
                    x = a.get((ZERO,))
                    return t.land(t.gt(a.shape[0], ZERO), self.truth(x) if isinstance(x, T) else t.mk(
                        "opaque", "truth:arr%d" % v.id, "bool"))
                return t.mk("opaque", "truth:arr%d" % v.id, "bool")
            if isinstance(c, ObjC):
                m, _ = c.cls.lookup("__bool__")
                if m is not None:
                    return self.truth(self.call(m, [v], {}))
                m, _ = c.cls.lookup("__len__")
                if m is not None:
                    return self.truth(self.call(m, [v], {}))
                return TRUE
            return TRUE
        if isinstance(v, Phi):
            return t.ite(v.c, self.truth(v.a, False), self.truth(v.b, False))
        if isinstance(v, Opq):
            return t.mk("opaque", "truth:%s:%d" % (v.why, id(v)), "bool")
        return TRUE

    def lam(self, fn, sort="int"):
        """Lambda term from a Python function over an index term."""
        v = t.fresh("i", sort, sign="nonneg")
        b = fn(v)
        if not isinstance(b, T):
            b = t.mk("opaque", "lam:%d" % id(b), "real")
        return t.abstract(v, b)

    def arr(self, r):
        """Array content behind a reference (views are read live)."""
        c = self.cell(r)
        if c.view is not None:
            base, shape, to_base, inside, inv = c.view
            b = self.arr(base)
            if b.flat is not None:
                bf = b
                return Arr(shape, b.dtype, lambda ix, bf=bf: bf.get(to_base(ix)))
            return Arr(shape, b.dtype, lambda ix, b=b: b.get(to_base(ix)))
        return c.arr

    def is_arr(self, v):
        return isinstance(v, Ref) and isinstance(self.cell(v), ArrC)

    def is_list(self, v):
        return isinstance(v, Ref) and isinstance(self.cell(v), ListC)

    def is_dict(self, v):
        return isinstance(v, Ref) and isinstance(self.cell(v), DictC)

    def is_obj(self, v):
        return isinstance(v, Ref) and isinstance(self.cell(v), ObjC)

    def mk_arr(self, arr):
        if arr.ndim == 0:
            return arr.get(())
        return self.new(ArrC(arr))

    def mk_list(self, seq):
        return self.new(ListC(seq))

    def none_test(self, v):
        """Condition under which v is None."""
        v = self.res(v)
        if isinstance(v, T):
            if v is NONE:
                return TRUE
            if v.op == "ite":
                return t.ite(v.args[0], self.none_test(v.args[1]), self.none_test(v.args[2]))
            if v.op == "sym" and v.args[1] == "any":
                return t.eq(v, NONE)
            if v.op == "opaque" and v.args[1] not in ("real", "int", "bool", "num"):
                return t.mk("opaque", "isnone:%d" % v.id, "bool")
            return FALSE
        if isinstance(v, Phi):
            return t.ite(v.c, self.none_test(v.a), self.none_test(v.b))
        if isinstance(v, Opq):
            return t.mk("opaque", "isnone:%d" % id(v), "bool")
        return FALSE

    def val_eq(self, a, b):
        """Python == as a boolean term (not for arrays)."""
        a, b = self.res(a), self.res(b)
        if isinstance(a, Phi):
            return t.ite(a.c, self.val_eq(a.a, b), self.val_eq(a.b, b))
        if isinstance(b, Phi):
            return t.ite(b.c, self.val_eq(a, b.a), self.val_eq(a, b.b))
        if isinstance(a, Opq) or isinstance(b, Opq):
            return t.mk("opaque", "eq:%d:%d" % (id(a), id(b)), "bool")
        if isinstance(a, T) and isinstance(b, T):
            return t.eq(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return TRUE
            ca, cb = self.cell(a), self.cell(b)
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return self.seq_eq(ca.seq, cb.seq)
            if isinstance(ca, SetC) and isinstance(cb, SetC):
                return self.np.set_eq(self, ca, cb)
            if isinstance(ca, DictC) and isinstance(cb, DictC):
                return t.mk("opaque", "dicteq:%d:%d" % (a.id, b.id), "bool")
            if isinstance(ca, ObjC):
                m, _ = ca.cls.lookup("__eq__")
                if m is not None:
                    return self.truth(self.call(m, [a, b], {}))
            return FALSE
        if isinstance(a, (Tup, SeqV)) and isinstance(b, (Tup, SeqV)):
            return self.seq_eq(self.seq_of(a), self.seq_of(b))
        if isinstance(a, EnumMember) and isinstance(b, EnumMember):
            return t.boolean(a is b)
        if isinstance(a, EnumMember) and isinstance(b, T):
            return self.val_eq(a.value, b) if a.cls.issub("str") or a.cls.issub("int") else FALSE
        if isinstance(b, EnumMember) and isinstance(a, T):
            return self.val_eq(b, a)
        if type(a) is type(b) and isinstance(a, (Cls, Func, Builtin)):
            return t.boolean(a is b or (isinstance(a, Builtin) and a.name == b.name))
        return FALSE

    def seq_eq(self, a, b):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return FALSE
            return t.land(*[self.val_eq(x, y) for x, y in zip(a.items, b.items)])
        same = t.eq(a.n, b.n)
        if same is FALSE:
            return FALSE
        return t.land(same, t.forall(a.n, self.lam(lambda i: self.val_eq(a.get(i), b.get(i)))))

    def seq_of(self, v, live=False):
        """Sequence view of an iterable value."""
        v = self.res(v)
        if isinstance(v, Tup):
            return ESeq(v.items)
        if isinstance(v, SeqV):
            return v.seq
        if isinstance(v, T):
            if v.op == "str":
                return ESeq([t.string(ch) for ch in v.args[0]])
            if v.op == "binrepr":
                return FSeq(self.np.bitlen(v.args[0]), lambda i: t.mk("charat", v, i))
            if t.is_num(v) or t.is_bool(v) or v is NONE:
                self.raise_exc("TypeError", "object is not iterable")
        if isinstance(v, Cls) and v.kind == "enum":
            return ESeq(enum_members(v))
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListC):
                return c.seq
            if isinstance(c, DictC) and not c.opaque and not c.open_keys():
                if all(k is TRUE for k, _ in c.entries.values()):
                    return ESeq([self.unkey(k) for k in c.entries])
                return None
            if isinstance(c, SetC):
                if c.pred is None and all(k is TRUE for k, _ in c.items):
                    return ESeq([x for _, x in c.items])
                return None
            if isinstance(c, ArrC):
                a = self.arr(v)
                if a.ndim == 1:
                    if a.flat is not None:
                        s = ESeq([arrays.taken(a, x) for x in a.flat])
                        s.npint = a.dtype == "int"
                        return s
                    s = FSeq(a.shape[0], lambda i: arrays.taken(a, a.get((i,))))
                    s.npint = a.dtype == "int"
                    s.tag = ("mask", a.mask) if a.mask else None
                    return s
                n = a.shape[0]

                def row(i):
                    return self.new(ArrC(Arr(a.shape[1:], a.dtype, lambda ix: a.get((i,) + ix))))

                if n.op == "q":
                    return ESeq([row(q(k)) for k in range(int(n.args[0]))])
                return FSeq(n, row)
            if isinstance(c, FileC):
                return None
            if isinstance(c, ObjC):
                m, _ = c.cls.lookup("__iter__")
                if m is not None:
                    return self.seq_of(self.call(m, [v], {}))
        if isinstance(v, Phi):
            a, b = self.seq_of(v.a), self.seq_of(v.b)
            if a is None or b is None:
                return None
            return ISeq(v.c, a, b)
        return None

    @staticmethod
    def key(v):
        """Hashable dictionary key for a constant value, or None."""
        if isinstance(v, T):
            if v.op == "str":
                return v.args[0]
            if v.op == "q":
                return v.args[0]
            if v.op in ("bool", "none"):
                return v
            if t.const_value(v) is not None:
                return v
            return None
        if isinstance(v, EnumMember):
            return v
        if isinstance(v, Tup):
            ks = [Interp.key(x) for x in v.items]
            return None if any(k is None for k in ks) else tuple(ks)
        if isinstance(v, (Cls, Func, Builtin)):
            return v
        return None

    @staticmethod
    def symkey(v):
        """Key for a value with symbolic parts, or None."""
        def flat(x):
            if isinstance(x, T):
                return None if x.op == "opaque" else x
            if isinstance(x, Tup):
                ks = [flat(y) for y in x.items]
                return None if any(k is None for k in ks) else tuple(ks)
            return Interp.key(x)

        k = flat(v)
        return None if k is None else SymKey(v, k)

    @staticmethod
    def unkey(k):
        if isinstance(k, SymKey):
            return k.v
        if isinstance(k, str):
            return t.string(k)
        if isinstance(k, Fraction):
            return q(k)
        if isinstance(k, tuple):
            return Tup([Interp.unkey(x) for x in k])
        return k

    # -- names -----------------------------------------------------------------------------------
    def lookup(self, name):
        fr = self.frames[-1]
        if name in fr.globals_:
            env = self.mods[fr.mod][2]
            v = self.cell(env).vars.get(name)
            if v is not None:
                return v
        else:
            env = fr.env
            first = True
            while env is not None:
                c = self.cell(env)
                if name in c.vars:
                    return self.bound(name, c.vars[name])
                if first and fr.locals_ and name in fr.locals_ and name not in fr.nonlocals:
                    self.raise_exc("UnboundLocalError", name)
                first = False
                env = c.parent
            env = self.mods[fr.mod][2]
            v = self.cell(env).vars.get(name)
            if v is not None:
                return v
        b = self.np.builtin_name(self, name)
        if b is not None:
            return b
        self.raise_exc("NameError", name)

    def bound(self, name, v):
        """Value of a name which may be unbound on some paths."""
        if isinstance(v, Unbound):
            self.raise_exc("UnboundLocalError", name)
        if not isinstance(v, Phi):
            return v

        def cond(x, seen):
            if isinstance(x, Unbound):
                return TRUE
            if not isinstance(x, Phi):
                return FALSE
            if id(x) not in seen:
                a, b = cond(x.a, seen), cond(x.b, seen)
                seen[id(x)] = FALSE if a is FALSE and b is FALSE else t.lor(t.land(x.c, a), t.land(t.lnot(x.c), b))
            return seen[id(x)]

        c = cond(v, {})
        if c is FALSE:
            return v
        d = self.decide(c)
        if d is TRUE:
            self.raise_exc("UnboundLocalError", name)
        if d is not FALSE:
            self.raise_exc("UnboundLocalError", name, c)

        def strip(x):
            if isinstance(x, Phi):
                a, b = strip(x.a), strip(x.b)
                return b if isinstance(a, Unbound) else a if isinstance(b, Unbound) else \
                    x if a is x.a and b is x.b else Phi(x.c, a, b)
            return x

        return strip(v)

    def assign_name(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_:
            env = self.mods[fr.mod][2]
            if fr.func != "<module>":
                self.effect("global", fr.mod, name, self.site())
        elif name in fr.nonlocals:
            env = self.cell(fr.env).parent
            while env is not None and name not in self.cell(env).vars:
                env = self.cell(env).parent
            if env is None:
                raise Unsupported("nonlocal")
        else:
            env = fr.env
        c = self.cell(env)
        vs = dict(c.vars)
        vs[name] = v
        self.st.heap[env.id] = EnvC(vs, c.parent)

    # -- statements ------------------------------------------------------------------------------
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.tick()
        self.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.taint("unsupported statement %s" % type(s).__name__)
            return
        try:
            m(s)
        except Unsupported as e:
            self.taint("unsupported: %s" % e)
            self.havoc_names(s)

    def havoc_names(self, s):
        for n in assigned_names([s]):
            self.assign_name(n, self.opq("unsupported statement"))

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            name = a.name
            if a.asname:
                v = Mod(name, name in self.trees)
                if name in self.trees:
                    self.load_module(name)
                self.assign_name(a.asname, v)
            else:
                top = name.split(".")[0]
                if name in self.trees:
                    self.load_module(name)
                self.assign_name(top, Mod(top, top in self.trees))

    def s_ImportFrom(self, s):
        fr = self.frames[-1]
        m = self.resolve_from(fr.mod, s)
        for a in s.names:
            if a.name == "*":
                if m in self.trees:
                    env = self.load_module(m)
                    for k, v in self.cell(env).vars.items():
                        if not k.startswith("_"):
                            self.assign_name(k, v)
                else:
                    self.taint("star import")
                continue
            if m in self.trees:
                self.load_module(m)
                vars_ = self.cell(self.mods[m][2]).vars
                if a.name in vars_:
                    v = vars_[a.name]
                elif m + "." + a.name in self.trees:
                    self.load_module(m + "." + a.name)
                    v = Mod(m + "." + a.name, True)
                else:
                    raise AnalysisBroken("cannot import %s from %s" % (a.name, m))
            else:
                v = self.np.module_attr(self, m, a.name)
            self.assign_name(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        f = self.make_func(s)
        v = f
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v)
        self.assign_name(s.name, v)

    def make_func(self, s, cls=None):
        fr = self.frames[-1]
        env = fr.env if fr.func != "<module>" else None
        if fr.func == "<class>":
            env = self.cell(fr.env).parent
        defaults = [self.eval(d) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d}
        for d in defaults + list(kwd.values()):
            if isinstance(d, Ref):
                self.effect("default", d.id, self.site())
        return Func(s, fr.mod, env, getattr(s, "name", "<lambda>"), defaults, kwd, cls)

    def apply_decorator(self, d, v):
        dv = self.eval(d)
        if isinstance(dv, Builtin):
            n = dv.name
            if n == "property":
                return Prop(v)
            if n in ("functools.cached_property",):
                return Prop(v, cached=True)
            if n == "staticmethod":
                return Static(v)
            if n == "classmethod":
                return Static(v, True)
            if n in ("functools.lru_cache", "functools.cache"):
                if isinstance(v, Func):
                    v.cached = {}
                return v
            if n in ("abc.abstractmethod", "typing.no_type_check", "typing.final",
                     "functools.total_ordering", "enum.unique", "typing.overload"):
                return v
        if isinstance(dv, Partial) and isinstance(dv.func, Builtin) and dv.func.name in (
                "functools.lru_cache", "functools.wraps"):
            if dv.func.name == "functools.lru_cache" and isinstance(v, Func):
                v.cached = {}
            return v
        if isinstance(dv, Bound) and isinstance(dv.func, Builtin) and dv.func.name in (
                "property.setter", "property.getter"):
            p = dv.self
            if dv.func.name == "property.setter":
                return Prop(p.fget, v)
            return Prop(v, p.fset)
        return self.call(dv, [v], {})

    def s_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.res(self.eval(b)) for b in s.bases]
        env = self.new(EnvC({}, fr.env if fr.func != "<module>" else None))
        cf = Frame(env, fr.mod, "<class>")
        self.frames.append(cf)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        attrs = dict(self.cell(env).vars)
        kind = "class"
        for b in bases:
            if isinstance(b, Cls):
                if b.kind in ("enum", "enumbase"):
                    kind = "enum"
                elif b.kind == "exception":
                    kind = "exception"
                elif b.kind == "ntbase":
                    kind = "namedtuple"
                elif b.kind == "dataclass" and kind == "class":
                    kind = "class"
            elif isinstance(b, Builtin) and b.name in ("str", "int"):
                pass
            elif isinstance(b, Builtin):
                pass
            elif isinstance(b, Opq):
                pass
        bb = [b if isinstance(b, Cls) else Cls(getattr(b, "name", "?"), [], {}, kind="ext")
              for b in bases]
        cls = Cls(s.name, bb, attrs, fr.mod, kind, s)
        cls.fields = [st.target.id for st in s.body
                      if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]
        for k, v in list(attrs.items()):
            for f in unwrap_funcs(v):
                if f.cls is None:
                    f.cls = cls
        if kind == "enum":
            for st in s.body:
                if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                    n = st.targets[0].id
                    if not n.startswith("_"):
                        attrs[n] = EnumMember(cls, n, attrs[n])
        v = cls
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            nm = dv.name if isinstance(dv, Builtin) else (
                dv.func.name if isinstance(dv, Partial) and isinstance(dv.func, Builtin) else None)
            if nm == "dataclasses.dataclass":
                cls.kind = "dataclass"
            elif nm in ("enum.unique", "functools.total_ordering", "typing.final"):
                pass
            else:
                v = self.call(dv, [v], {})
        self.assign_name(s.name, v)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.exits.append(Exit("return", self.st, v, self.site()))
        raise Dead()

    def s_Raise(self, s):
        if s.exc is None:
            v = self.cell(self.frames[-1].env).vars.get("@exc")
            if v is None:
                raise Unsupported("bare raise")
        else:
            v = self.res(self.eval(s.exc))
            if isinstance(v, Cls):
                v = self.instantiate(v, [], {})
        if s.cause is not None:
            self.eval(s.cause)
        self.exits.append(Exit("raise", self.st, v, self.site()))
        raise Dead()

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        d = self.decide(c)
        if d is TRUE:
            return
        self.raise_exc("AssertionError", "", None if d is FALSE else t.lnot(c))

    def s_Global(self, s):
        self.frames[-1].globals_.update(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def s_Delete(self, s):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                c = self.cell(self.frames[-1].env)
                vs = dict(c.vars)
                vs.pop(tg.id, None)
                self.st.heap[self.frames[-1].env.id] = EnvC(vs, c.parent)
            elif isinstance(tg, ast.Subscript):
                o = self.res(self.eval(tg.value))
                k = self.eval(tg.slice)
                self.np.del_item(self, o, k)
            elif isinstance(tg, ast.Attribute):
                o = self.res(self.eval(tg.value))
                if self.is_obj(o):
                    c = self.cell(o)
                    fs = dict(c.fields)
                    fs.pop(tg.attr, None)
                    self.put(o, ObjC(c.cls, fs))
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_Assign(self, s):
        v = self.eval(s.value)
        for tg in s.targets:
            self.assign(tg, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id)
            v = self.eval(s.value)
            r = self.inplace(s.op, cur, v)
            self.assign_name(tg.id, r)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value)
            cur = self.get_attr(o, tg.attr)
            v = self.eval(s.value)
            self.set_attr(o, tg.attr, self.inplace(s.op, cur, v))
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value)
            k = self.eval_index(tg.slice)
            cur = self.np.get_item(self, o, k)
            v = self.eval(s.value)
            self.np.set_item(self, o, k, self.inplace(s.op, cur, v, sub=True))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v, sub=False):
        cur = self.res(cur)
        if isinstance(cur, Ref) and not sub:
            c = self.cell(cur)
            if isinstance(c, ArrC):
                r = self.binop(op, cur, v)
                if isinstance(r, Ref) and isinstance(self.cell(r), ArrC):
                    ra = self.arr(r)
                    ca = self.arr(cur)
                    if self.np.kind_rank(ra.dtype) > self.np.kind_rank(ca.dtype) and ca.dtype in (
                            "int", "bool"):
                        self.raise_exc("TypeError", "cannot cast ufunc output")
                    if not same_shape(ra.shape, ca.shape):
                        return self.opq("in-place shape change")
                    self.np.store_all(self, cur, ra)
                    return cur
                return r
            if isinstance(c, ListC) and isinstance(op, ast.Add):
                sq = self.seq_of(v)
                if sq is None:
                    raise Unsupported("list +=")
                self.put(cur, ListC(concat([c.seq, sq])))
                return cur
            if isinstance(c, SetC) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
                r = self.binop(op, cur, v)
                self.put(cur, self.cell(r))
                return cur
        return self.binop(op, cur, v)

    def assign(self, tg, v):
        if isinstance(tg, ast.Name):
            self.assign_name(tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            self.unpack(tg.elts, v)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value)
            self.set_attr(o, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value)
            k = self.eval_index(tg.slice)
            self.np.set_item(self, o, k, v)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v):
        v = self.res(v)
        if isinstance(v, Phi):
            parts = None
            a, b = self.seq_of(v.a), self.seq_of(v.b)
            if a is not None and b is not None and a.items is not None and b.items is not None:
                parts = ESeq([gate(v.c, x, y) for x, y in zip(a.items, b.items)])
            sq = parts
        else:
            sq = self.seq_of(v)
        if sq is None:
            for e in elts:
                self.assign(e, self.opq("unpacking"))
            return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            for j in range(i):
                self.assign(elts[j], sq.get(q(j)))
            mid_n = t.sub(sq.n, q(len(elts) - 1))
            if sq.items is not None:
                self.assign(elts[i].value, self.mk_list(ESeq(sq.items[i: len(sq.items) - after])))
            else:
                self.assign(elts[i].value, self.mk_list(
                    FSeq(mid_n, lambda k: sq.get(t.add(k, q(i))))))
            for j in range(after):
                self.assign(elts[i + 1 + j], sq.get(t.sub(sq.n, q(after - j))))
            return
        bad = t.ne(sq.n, q(len(elts)))
        d = self.decide(bad)
        if d is TRUE:
            self.raise_exc("ValueError", "unpack")
        if d is None:
            self.raise_exc("ValueError", "unpack", bad)
        for j, e in enumerate(elts):
            self.assign(e, sq.get(q(j)))

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        d = self.decide(c)
        if d is TRUE:
            self.exec_block(s.body)
            return
        if d is FALSE:
            self.exec_block(s.orelse)
            return
        self.branches += 1
        base = self.st
        nb, bh, ef = len(base.facts.items), dict(base.heap), base.effects
        res = []
        for cond, blk in ((c, s.body), (t.lnot(c), s.orelse)):
            self.st = base.fork(cond)
            try:
                self.exec_block(blk)
                res.append(self.st)
            except Dead:
                res.append(None)
        if res[0] is None and res[1] is None:
            raise Dead()
        self.st = self.merge(c, res[0], res[1], nb, bh, ef)

    def s_With(self, s):
        exits = []
        for item in s.items:
            v = self.res(self.eval(item.context_expr))
            r = v
            if self.is_obj(v):
                m, _ = self.cell(v).cls.lookup("__enter__")
                if m is not None:
                    r = self.call(m, [v], {})
                    exits.append(v)
            elif isinstance(v, SeqV) and v.kind == "gen":
                raise Unsupported("contextmanager")
            if item.optional_vars is not None:
                self.assign(item.optional_vars, r)
        self.exec_block(s.body)
        for v in reversed(exits):
            m, _ = self.cell(v).cls.lookup("__exit__")
            if m is not None:
                self.call(m, [v, NONE, NONE, NONE], {})

    def s_Try(self, s):
        saved = self.exits
        self.exits = []
        base = self.st
        nb, bh, ef = len(base.facts.items), dict(base.heap), base.effects
        outs = []
        try:
            self.exec_block(s.body)
            alive = True
        except Dead:
            alive = False
        inner = self.exits
        self.exits = saved
        if alive:
            try:
                self.exec_block(s.orelse)
                outs.append((self.st, None))
            except Dead:
                pass
        passed = []
        for e in inner:
            if e.kind != "raise":
                passed.append(e)
                continue
            handled = False
            exc = e.value
            cls = e.st.heap[exc.id].cls if isinstance(exc, Ref) and isinstance(
                e.st.heap.get(exc.id), ObjC) else None
            for h in s.handlers:
                self.st = e.st
                m = self.match_handler(h, cls)
                if m is None:
                    raise Unsupported("exception handler type")
                if not m:
                    continue
                handled = True
                hs = self.exits
                self.exits = []
                try:
                    if h.name:
                        self.assign_name(h.name, exc)
                    self.assign_name("@exc", exc)
                    try:
                        self.exec_block(h.body)
                        outs.append((self.st, None))
                    except Dead:
                        pass
                finally:
                    he = self.exits
                    self.exits = hs
                passed.extend(he)
                break
            if not handled:
                passed.append(e)
        if s.finalbody:
            fin = []
            for e in passed:
                self.st = e.st
                hs = self.exits
                self.exits = []
                try:
                    self.exec_block(s.finalbody)
                    e.st = self.st
                    fin.append(e)
                except Dead:
                    pass
                fin.extend(self.exits)
                self.exits = hs
            passed = fin
        self.exits.extend(passed)
        if not outs:
            raise Dead()
        self.st, _ = self.merge_many(outs, nb, bh, ef) if len(outs) > 1 else outs[0]
        if s.finalbody:
            self.exec_block(s.finalbody)

    def match_handler(self, h, cls):
        if h.type is None:
            return True
        if cls is None:
            return None
        ty = self.res(self.eval(h.type))
        tys = ty.items if isinstance(ty, Tup) else [ty]
        for x in tys:
            if not isinstance(x, Cls):
                return None
            if x in cls.mro():
                return True
        return False

    def s_Break(self, s):
        self.exits.append(Exit("break", self.st))
        raise Dead()

    def s_Continue(self, s):
        self.exits.append(Exit("continue", self.st))
        raise Dead()

    # -- loops -----------------------------------------------------------------------------------
    def plain_object(self, v):
        """An instance of a class of the package that defines none of the container protocols."""
        if not isinstance(v, Ref) or not isinstance(self.cell(v), ObjC):
            return False
        cls = self.cell(v).cls
        if any(c.kind != "class" or not c.node or not all(isinstance(b, Cls) for b in c.bases) for c in cls.mro()):
            return False
        return all(cls.lookup(m)[0] is None for m in ("__iter__", "__getitem__", "__getattr__", "__array__"))

    def s_For(self, s):
        it = self.res(self.eval(s.iter))
        sq = self.seq_of(it)
        if sq is None:
            if isinstance(it, T) and (it is NONE or self.np.is_numeric_scalar(it)) or self.plain_object(it):
                self.raise_exc("TypeError", "object is not iterable")
            raise Unsupported("iteration over %r" % (it,))
        n = self.simp(sq.n)
        live = it if self.is_arr(it) else None
        lives = [it] if live else []
        if isinstance(it, SeqV) and getattr(it.seq, "live", None):
            pass
        if n.op == "q":
            cnt = int(n.args[0])
            self.loops_unrolled += 1

            def item(i):
                if live is not None and self.arr(live).ndim == 1:
                    return arrays.taken(self.arr(live), self.arr(live).get((q(i),)))
                if hasattr(sq, "live_get"):
                    return sq.live_get(i)
                return sq.items[i] if sq.items is not None else sq.get(q(i))

            self.unroll(cnt, lambda i: self.assign(s.target, item(i)), s.body, s.orelse)
            return
        items = cond_items(sq)
        if items is not None:
            # known items, some of them present only on a condition
            test, bind = TermExpr(), BindStmt()
            bind.target = s.target
            for x in (test, bind):
                ast.copy_location(x, s)
            body = ast.copy_location(ast.If(test=test, body=[bind] + s.body, orelse=[]), s)
            self.loops_unrolled += 1

            def setup(i):
                test.term, bind.value = items[i]

            self.unroll(len(items), setup, [body], s.orelse)
            return
        from .loops import symbolic_for

        src = it if isinstance(it, Ref) else getattr(sq, "src", None)
        symbolic_for(self, n, lambda k: self.assign(s.target, self.seq_item(sq, k)), s, src)

    def seq_item(self, sq, k):
        return sq.get(k)

    def s_BindStmt(self, s):
        self.assign(s.target, s.value)

    def e_TermExpr(self, e):
        return e.term

    def unroll(self, cnt, bind, body, orelse, cond=None, limit=20000):
        """Execute a loop with a known number of iterations (cnt) or a decidable condition."""
        saved = self.exits
        outer = saved
        broke = []
        base0 = self.st
        nb, bh, ef = len(base0.facts.items), dict(base0.heap), base0.effects
        i = 0
        alive = True
        while True:
            if cnt is not None and i >= cnt:
                break
            if cond is not None:
                c = self.truth(self.eval(cond))
                d = self.decide(c)
                if d is FALSE:
                    break
                if d is None:
                    raise Unsupported("loop condition")
            if i > limit:
                raise Unsupported("loop limit")
            self.exits = []
            ib = self.st
            inb, ibh, ief = len(ib.facts.items), ib.heap, ib.effects
            ibh = None
            try:
                if bind is not None:
                    bind(i)
                # snapshot only needed when the iteration forks
                ibh = dict(self.st.heap)
                self.exec_block(body)
                ok = True
            except Dead:
                ok = False
            conts = []
            for e in self.exits:
                if e.kind == "continue":
                    conts.append((e.st, None))
                elif e.kind == "break":
                    broke.append((e.st, None))
                else:
                    outer.append(e)
            self.exits = outer
            if ok:
                conts.append((self.st, None))
            if not conts:
                alive = False
                break
            if len(conts) == 1:
                self.st = conts[0][0]
            else:
                self.st, _ = self.merge_many(conts, inb, ibh if ibh is not None else {}, ief)
            i += 1
        outs = list(broke)
        if alive:
            try:
                self.exec_block(orelse)
                outs.append((self.st, None))
            except Dead:
                pass
        if not outs:
            raise Dead()
        if len(outs) == 1:
            self.st = outs[0][0]
        else:
            self.st, _ = self.merge_many(outs, nb, bh, ef)

    def s_While(self, s):
        c = self.truth(self.eval(s.test))
        d = self.decide(c)
        if d is FALSE:
            self.exec_block(s.orelse)
            return
        from .loops import symbolic_while

        if d is TRUE:
            if c is not TRUE:
                # entered for sure, but the number of iterations may depend on symbols
                here, exits = self.st.fork(), list(self.exits)
                try:
                    symbolic_while(self, s)
                    return
                except Unsupported:
                    self.st, self.exits = here, exits
            self.loops_unrolled += 1
            self.unroll(None, None, s.body, s.orelse, cond=s.test)
            return
        symbolic_while(self, s)

    # -- expressions -----------------------------------------------------------------------------
    def eval(self, e):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.opq("unsupported expression %s" % type(e).__name__)
        if hasattr(e, "lineno"):
            self.node = e
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, str):
            return t.string(v)
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, bytes):
            return self.opq("bytes")
        return num_literal(v)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return Tup(self.eval_elts(e.elts))

    def e_List(self, e):
        vs = self.eval_elts(e.elts, seq=True)
        if isinstance(vs, Seq):
            return self.mk_list(vs)
        sq = ESeq(vs)
        sq.lit = literal_kind(e.elts)
        return self.mk_list(sq)

    def e_Set(self, e):
        return self.np.make_set(self, ESeq(self.eval_elts(e.elts)))

    def eval_elts(self, elts, seq=False):
        out = []
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                sq = self.seq_of(self.eval(x.value))
                if sq is None:
                    raise Unsupported("starred")
                if sq.items is not None:
                    out.extend(sq.items)
                elif seq:
                    parts.append(ESeq(out))
                    parts.append(sq)
                    out = []
                else:
                    raise Unsupported("starred of unknown length")
            else:
                out.append(self.eval(x))
        if parts:
            parts.append(ESeq(out))
            return concat(parts)
        return out

    def e_Dict(self, e):
        ent = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.res(self.eval(v))
                if not self.is_dict(d) or self.cell(d).opaque:
                    return self.new(DictC({}, True))
                for kk, (c, vv) in self.cell(d).entries.items():
                    if c is TRUE:
                        ent.pop(kk, None) if False else None
                        ent[kk] = (TRUE, vv)
                    else:
                        return self.new(DictC({}, True))
                continue
            kv = self.res(self.eval(k))
            key = self.key(kv)
            vv = self.eval(v)
            if key is None:
                return self.new(DictC({}, True))
            ent[key] = (TRUE, vv)
        return self.new(DictC(ent))

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(t.string(v.value))
            else:
                x = self.eval(v.value)
                spec = None
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec)
                if v.conversion == ord("r"):
                    r = self.np.repr_value(self, x)
                elif v.conversion == ord("s"):
                    r = self.np.str_value(self, x)
                else:
                    r = None
                if spec is not None and not (spec.op == "str" and spec.args[0] == ""):
                    r = self.np.format_value(self, x if r is None else r, spec)
                elif r is None:
                    r = self.np.str_value(self, x)
                if not isinstance(r, T):
                    return r
                parts.append(r)
        return t.cat(*parts)

    def e_FormattedValue(self, e):
        return self.np.str_value(self, self.eval(e.value))

    def e_Attribute(self, e):
        return self.get_attr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        return self.np.get_item(self, o, k)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s)
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_index(x) for x in s.elts])
        if type(s).__name__ == "Index":
            return self.eval_index(s.value)
        return self.eval(s)

    def e_Slice(self, s):
        f = lambda x: self.eval(x) if x is not None else NONE
        return SliceV(f(s.lower), f(s.upper), f(s.step))

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return t.lnot(self.truth(v))
        return self.unop(e.op, v)

    def unop(self, op, v):
        def f(x):
            if isinstance(x, Opq):
                return x
            if isinstance(op, ast.USub):
                return self.np.ufunc1(self, x, t.neg, None)
            if isinstance(op, ast.UAdd):
                return self.np.ufunc1(self, x, lambda y: y, None)
            if isinstance(op, ast.Invert):
                def inv(y):
                    if t.is_bool(y):
                        return t.lnot(y)
                    return t.sub(q(-1), y)
                return self.np.ufunc1(self, x, inv, None)
            return self.opq("unary op")

        return self.dist(v, f)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Phi) or isinstance(b, Phi):
            p = a if isinstance(a, Phi) else b
            return self.fork_value(
                p.c,
                lambda: self.binop(op, p.a if p is a else a, b if p is a else p.a),
                lambda: self.binop(op, p.b if p is a else a, b if p is a else p.b))
        r = self.np.binop(self, type(op).__name__, a, b)
        return arrays.floated(r) if isinstance(r, T) and r.op in ("sym", "elem") else r

    def e_BoolOp(self, e):
        vals = e.values
        isand = isinstance(e.op, ast.And)
        return self._boolop(vals, isand)

    def _boolop(self, vals, isand):
        a = self.eval(vals[0])
        if len(vals) == 1:
            return a
        c = self.truth(a)
        d = self.decide(c)
        rest = vals[1:]
        if d is not None:
            if (d is TRUE) == isand:
                return self._boolop(rest, isand)
            return a
        if isand:
            r = self.fork_value(c, lambda: self._boolop(rest, isand), lambda: a)
        else:
            r = self.fork_value(c, lambda: a, lambda: self._boolop(rest, isand))
        return r

    def e_Compare(self, e):
        left = self.eval(e.left)
        out = None
        if len(e.ops) == 1:
            return self.compare(e.ops[0], left, self.eval(e.comparators[0]))
        conds = []
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            r = self.compare(op, left, right)
            conds.append(self.truth(r))
            left = right
        return t.land(*conds)

    def compare(self, op, a, b):
        a, b = self.res(a), self.res(b)
        n = type(op).__name__
        if n in ("Is", "IsNot"):
            if b is NONE:
                r = self.none_test(a)
            elif a is NONE:
                r = self.none_test(b)
            elif isinstance(a, T) and isinstance(b, T):
                r = t.eq(a, b)
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = t.boolean(a.id == b.id)
            elif isinstance(a, (Phi, Opq)) or isinstance(b, (Phi, Opq)):
                r = t.mk("opaque", "is:%d:%d" % (id(a), id(b)), "bool")
            else:
                r = t.boolean(a is b or (isinstance(a, Builtin) and isinstance(b, Builtin)
                                         and a.name == b.name))
            return r if n == "Is" else t.lnot(r)
        if n in ("In", "NotIn"):
            r = self.np.contains(self, a, b)
            if not isinstance(r, T):
                return r
            return r if n == "In" else t.lnot(r)
        if isinstance(a, Phi) or isinstance(b, Phi):
            p = a if isinstance(a, Phi) else b
            return self.fork_value(
                p.c,
                lambda: self.compare(op, p.a if p is a else a, b if p is a else p.a),
                lambda: self.compare(op, p.b if p is a else a, b if p is a else p.b))
        return self.np.compare(self, n, a, b)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.fork_value(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign_name(e.target.id, v)
        return v

    def e_Lambda(self, e):
        fr = self.frames[-1]
        return Func(e, fr.mod, fr.env if fr.func != "<module>" else None, "<lambda>",
                    [self.eval(d) for d in e.args.defaults],
                    {a.arg: self.eval(d) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d})

    def e_Starred(self, e):
        raise Unsupported("starred")

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        acc = self.lookup("@yield")
        c = self.cell(acc)
        self.put(acc, ListC(concat([c.seq, ESeq([v])])), mut=False)
        return NONE

    def e_YieldFrom(self, e):
        sq = self.seq_of(self.eval(e.value))
        if sq is None:
            raise Unsupported("yield from")
        acc = self.lookup("@yield")
        c = self.cell(acc)
        self.put(acc, ListC(concat([c.seq, sq])), mut=False)
        return NONE

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) in (0, 2) and not e.keywords:
            fr = self.frames[-1]
            cls, obj = fr.cls, fr.selfv
            if e.args:
                cls, obj = self.res(self.eval(e.args[0])), self.res(self.eval(e.args[1]))
            if not isinstance(cls, Cls):
                return self.opq("super outside class")
            return Super(cls, obj)
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sq = self.seq_of(self.eval(a.value))
                if sq is None or sq.items is None:
                    if sq is not None and len(e.args) == 1:
                        # f(*seq): pass the sequence wholesale to builtins that take varargs
                        return self.np.call_starseq(self, f, sq)
                    return self.opq("call with unknown argument list")
                args.extend(sq.items)
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.res(self.eval(k.value))
                if not self.is_dict(d) or self.cell(d).opaque:
                    return self.opq("call with unknown keyword arguments")
                for kk, (c, vv) in self.cell(d).entries.items():
                    if self.decide(c) is not TRUE or not isinstance(kk, str):
                        return self.opq("call with conditional keyword arguments")
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value)
        self.node = e
        fr = self.frames[-1]
        self.call_sites.add((fr.mod, getattr(e, "lineno", 0), getattr(e, "col_offset", 0)))
        return self.call(f, args, kwargs, e)

    # comprehensions
    def e_ListComp(self, e):
        sq = self.comp(e.generators, lambda: self.eval(e.elt))
        if sq is None:
            return self.opq("list comprehension")
        return self.mk_list(sq)

    def e_GeneratorExp(self, e):
        sq = self.comp(e.generators, lambda: self.eval(e.elt))
        if sq is None:
            return self.opq("generator expression")
        return SeqV(sq, "gen")

    def e_SetComp(self, e):
        sq = self.comp(e.generators, lambda: self.eval(e.elt))
        if sq is None:
            return self.opq("set comprehension")
        return self.np.make_set(self, sq)

    def e_DictComp(self, e):
        def kv():
            k = self.eval(e.key)
            return Tup([k, self.eval(e.value)])

        sq = self.comp(e.generators, kv)
        items = cond_items(sq) if sq is not None else None
        if items is None:
            return self.new(DictC({}, True))
        ent = {}
        for c, p in items:
            if isinstance(p, Phi) or not isinstance(p, Tup):
                return self.new(DictC({}, True))
            key = self.key(self.res(p.items[0]))
            if key is None or c is not TRUE and key in ent:
                return self.new(DictC({}, True))
            ent[key] = (c, p.items[1])
        return self.new(DictC(ent))

    def comp(self, gens, leaf):
        """Sequence of leaf values for nested comprehension generators."""
        fr = self.frames[-1]
        # comprehension scope
        env = self.new(EnvC({}, fr.env if fr.func != "<module>" else None))
        nf = Frame(env, fr.mod, fr.func, fr.cls, fr.selfv)
        nf.globals_ = fr.globals_
        first = self.seq_of(self.eval(gens[0].iter))
        self.frames.append(nf)
        try:
            return self.comp_level(gens, 0, leaf, first)
        finally:
            self.frames.pop()

    def comp_level(self, gens, i, leaf, sq):
        g = gens[i]
        if sq is None:
            return None
        n = self.simp(sq.n)
        last = i == len(gens) - 1

        def inner():
            if last:
                return leaf()
            nxt = self.seq_of(self.eval(gens[i + 1].iter))
            return self.comp_level(gens, i + 1, leaf, nxt)

        gated = cond_items(sq) if n.op != "q" else None
        if n.op == "q" or gated is not None:
            parts = []
            for k in range(int(n.args[0]) if gated is None else len(gated)):
                self.tick()
                ok = TRUE
                if gated is not None:
                    ok = gated[k][0]
                    self.assign(g.target, gated[k][1])
                else:
                    self.assign(g.target, sq.items[k] if sq.items is not None else sq.get(q(k)))
                for c in g.ifs:
                    ok = t.land(ok, self.truth(self.eval(c)))
                    if self.decide(ok) is FALSE:
                        break
                d = self.decide(ok)
                if d is FALSE:
                    continue
                if d is TRUE:
                    v = inner()
                    if last:
                        parts.append(ESeq([v]))
                    else:
                        if v is None:
                            return None
                        parts.append(v)
                else:
                    base = self.st
                    self.st = base.fork(ok)
                    try:
                        v = inner()
                    except Dead:
                        self.st = base
                        base.facts = base.facts.add(t.lnot(ok))
                        continue
                    extra = self.st.facts.items[len(base.facts.items) + 1:]
                    self.st.facts = base.facts.add(*[t.implies(ok, f) for f in extra])
                    s1 = ESeq([v]) if last else v
                    if s1 is None:
                        return None
                    parts.append(ISeq(ok, s1, ESeq([])))
            return concat(parts)
        # unknown length
        from .loops import comp_symbolic

        return comp_symbolic(self, n, sq, g, inner, last)

    # -- attributes ------------------------------------------------------------------------------
    def get_attr(self, o, name):
        o = self.res(o)
        if isinstance(o, Phi):
            return self.fork_value(o.c, lambda: self.get_attr(o.a, name),
                                   lambda: self.get_attr(o.b, name))
        if isinstance(o, Mod):
            return self.mod_attr(o.name, name)
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjC):
                return self.obj_attr(o, c, name)
        if isinstance(o, Cls):
            v, k = o.lookup(name)
            if v is not None:
                if isinstance(v, Static):
                    return Bound(v.func, o) if v.isclass else v.func
                return v
            if name in ("__name__", "__qualname__"):
                return t.string(o.name)
            if name == "__members__" and o.kind == "enum":
                return self.new(DictC({m.name: (TRUE, m) for m in enum_members(o)}))
            if name == "__module__":
                return t.string(str(o.mod))
            if name == "__init__":
                return Builtin("object.__init__")
            if o.kind == "namedtuple" and name == "_fields":
                return Tup([t.string(x) for x in o.fields])
            return self.opq("class attribute %s" % name)
        if isinstance(o, EnumMember):
            if name == "value":
                return o.value
            if name == "name":
                return t.string(o.name)
            v, _ = o.cls.lookup(name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            if isinstance(v, Func):
                return Bound(v, o)
            return self.opq("enum attribute %s" % name)
        if isinstance(o, Super):
            mro = None
            c = self.cell(o.self).cls if self.is_obj(o.self) else None
            mro = (c or o.cls).mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for k in mro[i + 1:]:
                if name in k.attrs:
                    v = k.attrs[name]
                    if isinstance(v, Func):
                        return Bound(v, o.self)
                    if isinstance(v, Prop):
                        return self.call(v.fget, [o.self], {})
                    if isinstance(v, Static):
                        return Bound(v.func, o.cls) if v.isclass else v.func
                    return v
            return Bound(Builtin("object." + name), o.self)
        if isinstance(o, Func):
            if name in ("__name__", "__qualname__"):
                return t.string(o.name)
            if name == "__wrapped__":
                return o
            if name == "__doc__":
                return t.string(ast.get_docstring(o.node) or "")
            if name in ("cache_clear", "cache_info"):
                return Builtin("function." + name)
            return self.opq("function attribute")
        if isinstance(o, Prop) and name in ("setter", "getter"):
            return Bound(Builtin("property." + name), o)
        if isinstance(o, Tup) and o.ntcls is not None and name in o.ntcls.fields:
            return o.items[o.ntcls.fields.index(name)]
        if isinstance(o, Opq):
            return o
        return self.np.value_attr(self, o, name)

    def obj_attr(self, o, c, name):
        v, k = c.cls.lookup(name)
        if isinstance(v, Prop):
            if v.cached:
                if name in c.fields:
                    return c.fields[name]
                r = self.call(v.fget, [o], {})
                c = self.cell(o)
                fs = dict(c.fields)
                fs[name] = r
                self.st.heap[o.id] = ObjC(c.cls, fs)
                return r
            return self.call(v.fget, [o], {})
        if name in c.fields:
            return c.fields[name]
        if v is not None:
            if isinstance(v, (Func, Builtin, Partial)):
                return Bound(v, o) if not isinstance(v, Partial) else v
            if isinstance(v, Static):
                return Bound(v.func, c.cls) if v.isclass else v.func
            return v
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            return self.new(DictC({k: (TRUE, x) for k, x in c.fields.items()}))
        ga, _ = c.cls.lookup("__getattr__")
        if ga is not None:
            return self.call(ga, [o, t.string(name)], {})
        if name in ("__init__", "__str__", "__repr__"):
            return Bound(Builtin("object." + name), o)
        if any(x.kind == "ext" for x in c.cls.mro()):
            return self.opq("attribute of external class")
        self.raise_exc("AttributeError", name)

    def set_attr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, Phi):
            def put(x):
                self.set_attr(x, name, v)
                return NONE
            self.fork_value(o.c, lambda: put(o.a), lambda: put(o.b))
            return
        if self.is_obj(o):
            c = self.cell(o)
            p, _ = c.cls.lookup(name)
            if isinstance(p, Prop) and not p.cached:
                if p.fset is None:
                    self.raise_exc("AttributeError", "can't set attribute")
                self.call(p.fset, [o, v], {})
                return
            sa, _ = c.cls.lookup("__setattr__")
            if sa is not None and not any(fr.func == "__setattr__" for fr in self.frames):
                self.call(sa, [o, t.string(name), v], {})
                return
            fs = dict(c.fields)
            fs[name] = v
            self.put(o, ObjC(c.cls, fs))
            return
        if isinstance(o, Cls):
            o.attrs[name] = v
            self.effect("global", o.mod, "%s.%s" % (o.name, name), self.site())
            return
        if isinstance(o, Mod):
            if o.repo:
                env = self.mods[o.name][2]
                c = self.cell(env)
                vs = dict(c.vars)
                vs[name] = v
                self.st.heap[env.id] = EnvC(vs, c.parent)
            self.effect("global", o.name, name, self.site())
            return
        if self.is_arr(o) and name == "shape":
            raise Unsupported("shape assignment")
        if isinstance(o, Func):
            self.effect("global", o.mod, "%s.%s" % (o.name, name), self.site())
            return
        raise Unsupported("attribute assignment on %r" % (o,))


# ----------------------------------------------------------------------------------------------


def literal_kind(elts):
    """'int' / 'float' when the numeric kind of a list display is fixed by its literals."""
    ints = bool(elts)
    for x in elts:
        while isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.USub, ast.UAdd)):
            x = x.operand
        if isinstance(x, ast.Constant) and isinstance(x.value, float):
            return "float"
        if not (isinstance(x, ast.Constant) and type(x.value) is int):
            ints = False
    return "int" if ints else None


def enum_members(cls):
    out = []
    for st in cls.node.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            m = cls.attrs.get(st.targets[0].id)
            if isinstance(m, EnumMember):
                out.append(m)
    return out


def unwrap_funcs(v):
    if isinstance(v, Func):
        return [v]
    if isinstance(v, Prop):
        return [f for f in (v.fget, v.fset) if isinstance(f, Func)]
    if isinstance(v, Static):
        return unwrap_funcs(v.func)
    return []


def strip(c, known):
    """Remove conjuncts that are already known."""
    if c is known:
        return TRUE
    ks = set(known.args) if known.op == "and" else {known}
    if c.op == "and":
        return t.land(*[a for a in c.args if a not in ks])
    return TRUE if c in ks else c


def same_shape(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def merge_arr(c, a, b, promote):
    if a.flat is not None and b.flat is not None and same_shape(a.shape, b.shape):
        return Arr(a.shape, promote(a.dtype, b.dtype), None,
                   flat=[gate(c, x, y) for x, y in zip(a.flat, b.flat)])
    shape = tuple(t.ite(c, x, y) for x, y in zip(a.shape, b.shape))
    return Arr(shape, promote(a.dtype, b.dtype), lambda ix: gate(c, a.get(ix), b.get(ix)))


_LOCALS = {}


def local_names(node):
    r = _LOCALS.get(node)
    if r is None:
        args = node.args
        names = set(assigned_names(node.body))
        for a in list(args.args) + list(args.kwonlyargs) + list(getattr(args, "posonlyargs", [])):
            names.add(a.arg)
        _LOCALS[node] = r = names
    return r


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    v = V()
    for s in stmts:
        v.visit(s)
    return out


class TermExpr(ast.expr):
    """An expression whose value is already known."""


class BindStmt(ast.stmt):
    """Assignment of a known value to a loop target."""


def cond_items(sq):
    """[(condition, item)] for a sequence of explicit, possibly conditional items, else None."""
    if sq.items is not None:
        return [(TRUE, x) for x in sq.items]
    if isinstance(sq, CSeq):
        out = []
        for p in sq.parts:
            xs = cond_items(p)
            if xs is None:
                return None
            out += xs
        return out
    if isinstance(sq, ISeq) and sq.b.items is not None and not sq.b.items:
        xs = cond_items(sq.a)
        return None if xs is None else [(t.land(sq.c, c), x) for c, x in xs]
    return None


_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack.extend(ast.iter_child_nodes(n))
        _GEN[node] = r
    return r
