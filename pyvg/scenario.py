"""Calling entry points of the analysed package with symbolic arguments."""

import time

from . import terms as t
from .facts import Facts
from .interp import AnalysisBroken, Budget, Dead, Exit, Interp, State
from .terms import FALSE, NONE, ONE, T, TRUE, ZERO, q
from .values import Arr, ArrC, ESeq, FSeq, ListC, ObjC, Opq, Phi, Ref, Tup


class Raise:
    """A way the call can raise: under cond, an exception of class name at site."""

    def __init__(self, cond, name, mro, site, effects, taint):
        self.cond, self.name, self.mro, self.site = cond, name, mro, site
        self.effects, self.taint = effects, taint
        self.facts = self.st = self.value = None

    def __repr__(self):
        return "Raise(%s @ %s: %s)" % (self.name, self.site, t.show(self.cond))


class NeverReturns(Exception):
    """The result of a call was needed, but no path of the call returns."""

    def __init__(self, out):
        super().__init__("the call never returns")
        self.out = out


class Outcome:
    """All outcomes of one symbolic call."""

    def __init__(self, I, raises, ok, st, value, base_facts):
        self.I, self.raises, self.ok, self.st, self.value = I, raises, ok, st, value
        self.facts = base_facts  # scenario assumptions

    @property
    def taint(self):
        out = []
        if self.st is not None:
            out += self.st.taint
        for r in self.raises:
            out += [x for x in r.taint if x not in out]
        return out

    def enter(self):
        if self.st is None:
            raise NeverReturns(self)
        self.I.st = State(dict(self.st.heap), self.st.facts, self.st.effects, self.st.taint)


class Session:
    def __init__(self, root, package="qctrlopencontrols", budget=600):
        self.deadline = time.time() + budget
        self.I = Interp(root, package, self.deadline)
        self.root, self.package = root, package
        self.names = {}

    # -- anchors ---------------------------------------------------------------------------------
    def export(self, *path):
        """Object reachable from the package's public namespace."""
        I = self.I
        saved, I.st = I.st, I.base.fork()
        try:
            v = I.mod_attr(self.package, path[0])
            if v is None or isinstance(v, Opq):
                raise AnalysisBroken("%s.%s is not defined" % (self.package, path[0]))
            for p in path[1:]:
                v = I.get_attr(v, p)
        finally:
            I.st = saved
        return v

    # -- inputs ----------------------------------------------------------------------------------
    def array(self, name, n, dtype="float", kind="ndarray", **props):
        """A symbolic 1-d input of length n."""
        a = t.arrsym(name, dtype, **props)
        if kind == "ndarray":
            return self.I.new(ArrC(Arr((n,), dtype, lambda ix: t.elem(a, ix[0]))))
        s = FSeq(n, lambda i: t.elem(a, i))
        return self.I.new(ListC(s))

    def elems(self, xs, dtype="float", kind="list"):
        if kind == "ndarray":
            return self.I.new(ArrC(Arr((q(len(xs)),), dtype, None, flat=list(xs))))
        return self.I.new(ListC(ESeq(xs)))

    def begin(self, *facts):
        self.I.st = self.I.base.fork(*facts)
        self.I.exits = []
        return self.I

    def call(self, fn, args=(), kwargs=None, facts=()):
        """Call fn in the current state; facts are added as assumptions."""
        I = self.I
        base = I.st
        base.facts = base.facts.add(*facts)
        if base.facts.inconsistent():
            raise AnalysisBroken("scenario assumptions are inconsistent")
        nb = len(base.facts.items)
        ne = len(base.effects)
        bf = base.facts
        I.exits = []
        try:
            v = fn(*args) if callable(fn) else I.call(fn, list(args), dict(kwargs or {}))
            st = I.st
        except Dead:
            st, v = None, None
        raises = []
        for e in I.exits:
            cond = t.land(*e.st.facts.items[nb:])
            cond = bf.simplify(cond)
            if cond is FALSE:
                continue
            cls = e.st.heap[e.value.id].cls if isinstance(e.value, Ref) else None
            raises.append(Raise(cond, cls.name if cls else "?", [c.name for c in cls.mro()] if cls else [],
                                e.site, e.st.effects[ne:], e.st.taint))
            raises[-1].facts = bf
            raises[-1].st, raises[-1].value = e.st, e.value
        I.exits = []
        ok = t.land(*st.facts.items[nb:]) if st is not None else FALSE
        o = Outcome(I, raises, ok, st, v, bf)
        o.effects0 = ne
        if st is not None:
            o.enter()
        return o
