"""Obligations, scenarios, verdicts and evidence."""

import json
import os
import select
import signal
import sys
import time
import traceback

from . import arrays, compare, evalt, sample
from . import terms as t
from .compare import Prover, unknown
from .evalt import Undefined, Unknown
from .facts import Facts
from .interp import AnalysisBroken, Budget, Dead
from . import npmodel  # noqa: F401  (import order)
from .pyfuncs import Snap, freeze
from .scenario import NeverReturns, Session
from .terms import FALSE, NONE, ONE, T, TRUE, ZERO, q
from .values import Arr, Cls, Mod, Func, ObjC, Opq, Phi, Ref, Tup

PROVED, REFUTED, UNDECIDED = "proved", "refuted", "undecided"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ----------------------------------------------------------------------------------------------
# specification data


class A:
    """One-dimensional array of n elements fn(i)."""

    def __init__(self, n, fn):
        self.n = n if isinstance(n, T) else q(n)
        self.fn = fn


def E(*xs):
    """Explicit array."""
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = list(xs[0])
    xs = [x if isinstance(x, T) else q(x) for x in xs]

    def fn(i):
        if i.op == "q":
            k = int(i.args[0])
            return xs[k] if 0 <= k < len(xs) else NONE
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = t.ite(t.eq(i, q(k)), xs[k], r)
        return r

    a = A(len(xs), fn)
    a.items = xs
    return a


class L:
    """Sequence of n items fn(i)."""

    def __init__(self, n, fn):
        self.n = n if isinstance(n, T) else q(n)
        self.fn = fn


class D:
    """Dictionary with exactly these keys."""

    def __init__(self, entries):
        self.entries = entries


class R:
    """A group of observed attributes."""

    def __init__(self, fields):
        self.fields = fields


class Hole(Exception):
    """Code data the analysis does not understand."""


class Blank:
    """Part of a value that is not known under a valuation."""


BLANK = Blank()


# ----------------------------------------------------------------------------------------------
# concrete valuation of data


def conc(x, env, gaps=False):
    """Value of data under a valuation; with gaps, parts not understood are left blank."""
    try:
        return conc_(x, env, gaps)
    except Unknown:
        if gaps:
            return BLANK
        raise


def conc_(x, env, gaps):
    if isinstance(x, T):
        return env.ev(x)
    if isinstance(x, Snap):
        k, d = x.kind, x.data
        if k == "arr":
            if d.ndim == 1:
                return Vec("array", [cell(d.get((q(i),)), env, gaps) for i in range(env.count(d.shape[0]))])
            if d.ndim == 0:
                return cell(d.get(()), env, gaps)
            dims = [env.count(s) for s in d.shape]
            if d.ndim == 2:
                return Vec("array", [Vec("array", [cell(d.get((q(i), q(j))), env, gaps) for j in range(dims[1])])
                                     for i in range(dims[0])])
            raise Unknown("array of %d dimensions" % d.ndim)
        if k == "seq":
            sq, kind = d
            return conc_seq(sq, env, gaps)
        if k == "dict":
            out = {}
            for key, (c, v) in d.items():
                try:
                    there = env.truth(c)
                except Unknown:
                    if not gaps:
                        raise
                    out[key] = BLANK
                    continue
                if there:
                    out[key] = conc(v, env, gaps)
            return out
        if k == "phi":
            c, a, b = d
            return conc(a if env.truth(c) else b, env, gaps)
        if k == "enum":
            return (d.cls.name, d.name)
        if k == "rec":
            return {n: conc(v, env, gaps) for n, v in d.items()}
        raise Unknown("%s" % k)
    if isinstance(x, A):
        return Vec("array", [conc(x.fn(q(i)), env, gaps) for i in range(env.count(x.n))])
    if isinstance(x, L):
        return Vec("list", [conc(x.fn(q(i)), env, gaps) for i in range(env.count(x.n))])
    if isinstance(x, D):
        return {k: conc(v, env, gaps) for k, v in x.entries.items()}
    if isinstance(x, R):
        return {k: conc(v, env, gaps) for k, v in x.fields.items()}
    raise Unknown(type(x).__name__)


def cell(v, env, gaps=False):
    return conc(v if isinstance(v, T) else Snap("opq", "element"), env, gaps)


def conc_seq(sq, env, gaps=False):
    if sq.items is not None:
        return Vec("list", [conc(v, env, gaps) for v in sq.items])
    return Vec("list", [conc(sq.get(q(i)), env, gaps) for i in range(env.count(sq.n))])


class Vec:
    def __init__(self, kind, items):
        self.kind, self.items = kind, items


def differ(a, b, path="", strict=False, slack=0):
    """None if equal (up to slack), otherwise (path, code value, expected value). Blanks match anything unless strict."""
    if a is BLANK or b is BLANK:
        return (path, show(a), show(b)) if strict and a is not b else None
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return path, show(a), show(b)
        for k in list(b) + [k for k in a if k not in b]:
            if k not in a:
                if b[k] is BLANK and not strict:
                    continue
                return "%s[%s]" % (path, k), "absent", show(b[k])
            if k not in b:
                if a[k] is BLANK and not strict:
                    continue
                return "%s[%s]" % (path, k), show(a[k]), "absent"
            r = differ(a[k], b[k], "%s.%s" % (path, k) if path else str(k), strict, slack)
            if r:
                return r
        return None
    if isinstance(b, Vec):
        if not isinstance(a, Vec) or (b.kind == "array") != (a.kind == "array"):
            return path, show(a), show(b)
        if len(a.items) != len(b.items):
            return "%s length" % path, show(a), show(b)
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            r = differ(x, y, "%s[%d]" % (path, i), strict, slack)
            if r:
                return r
        return None
    if isinstance(a, (dict, Vec)):
        return path, show(a), show(b)
    if evalt.same(a, b) or slack and evalt.same(a, b, slack, 1):
        return None
    return path, show(a), show(b)


def steady(env, x, got):
    """The value does not hinge on the working precision (cancellation down to rounding noise)."""
    old = evalt.mp.dps
    try:
        evalt.mp.dps = 34
        return differ(conc(x, env.copy(), True), got, "", True) is None
    except (Unknown, Undefined, ZeroDivisionError):
        return False
    finally:
        evalt.mp.dps = old


def undefined(env, x):
    """The value is undefined at another working precision, too."""
    old = evalt.mp.dps
    try:
        evalt.mp.dps = 34
        conc(x, env.copy(), True)
        return False
    except (Undefined, ZeroDivisionError):
        return True
    except Unknown:
        return False
    finally:
        evalt.mp.dps = old


def firm(env, facts):
    """The valuation satisfies the facts at another working precision, too."""
    return all(steady(env, f, True) for f in facts if f is not TRUE)


def show(v):
    if v is BLANK:
        return "?"
    if isinstance(v, Vec):
        return [show(x) for x in v.items[:40]]
    if isinstance(v, dict):
        return {str(k): show(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return list(v)
    return evalt.plain(v)


# ----------------------------------------------------------------------------------------------
# proof over data


def prove(pr, code, spec, f):
    """Structural proof of equality. Hole if code data is not understood."""
    if isinstance(code, Snap) and code.kind == "phi":
        c, a, b = code.data
        for lit, x in ((c, a), (t.lnot(c), b)):
            if f.decide(lit) is FALSE:
                continue
            if not prove(pr, x, spec, f.add(lit)):
                return False
        return True
    if isinstance(spec, Snap) and spec.kind == "phi":
        c, a, b = spec.data
        return all(f.decide(lit) is FALSE or prove(pr, code, x, f.add(lit)) for lit, x in ((c, a), (t.lnot(c), b)))
    if isinstance(code, Snap) and code.kind in ("opq", "other", "set"):
        raise Hole(str(code.data)[:200])
    if isinstance(spec, T):
        if not isinstance(code, T):
            return False
        return pr.equal(code, spec, f)
    if isinstance(spec, A):
        if not (isinstance(code, Snap) and code.kind == "arr" and code.data.ndim == 1):
            return False
        a = code.data
        return prove_seq(pr, a.shape[0], lambda i: a.get((i,)), spec, f, a.flat)
    if isinstance(spec, L):
        if not (isinstance(code, Snap) and code.kind == "seq"):
            return False
        sq, kind = code.data
        return prove_seq(pr, sq.n, sq.get, spec, f, sq.items)
    if isinstance(spec, D):
        if not (isinstance(code, Snap) and code.kind == "dict"):
            return False
        d = code.data
        for k, v in spec.entries.items():
            if k not in d or not pr.equal(d[k][0], TRUE, f):
                return False
            if not prove(pr, d[k][1], v, f):
                return False
        for k, (c, _) in d.items():
            if k not in spec.entries and not pr.equal(c, FALSE, f):
                return False
        return True
    if isinstance(spec, R):
        if not (isinstance(code, Snap) and code.kind == "rec"):
            return False
        for k, v in spec.fields.items():
            if k not in code.data or not prove(pr, code.data[k], v, f):
                return False
        return True
    return False


def prove_seq(pr, n, get, spec, f, items=None):
    # different shapes under different conditions
    c = compare.gate_of(f.simplify(n)) if n is not spec.n else None
    if c is None and spec.n is not n:
        c = compare.gate_of(f.simplify(spec.n))
    if c is not None and f.decide(c) is None:
        pr.tick()
        return all(prove_seq(pr, n, get, spec, f.add(x), items) for x in (c, t.lnot(c)))
    if not pr.equal(n, spec.n, f):
        return False
    sn = f.simplify(spec.n)
    if sn.op == "q":
        return all(prove(pr, lift(get(q(k))), spec.fn(q(k)), f) for k in range(int(sn.args[0])))
    i = t.fresh("i", "int", sign="nonneg")
    g = f.add(t.lt(i, sn))
    x, y = lift(get(i)), spec.fn(i)
    if isinstance(x, T) and isinstance(y, T):
        if pr.equal(x, y, g):
            return True
        # blocks of positions
        m = compare.block_of((x, y), i, g)
        if m is not None:
            try:
                return pr.body_eq(i, x, y, g, 24)
            except (compare.Limit, RecursionError):
                return False
        return False
    return prove(pr, x, y, g)


def as_spec(x, fn=lambda v: v):
    """Observed one-dimensional array as specification data (elements mapped by fn)."""
    if not (isinstance(x, Snap) and x.kind == "arr" and x.data.ndim == 1):
        raise Hole("not an array")
    return A(x.data.shape[0], lambda i: fn(x.data.get((i,))))


def lift(v):
    if isinstance(v, (T, Snap)):
        return v
    if isinstance(v, Phi):
        return Snap("phi", (v.c, lift(v.a), lift(v.b)))
    return Snap("opq", repr(v)[:120])


# ----------------------------------------------------------------------------------------------
# scenarios


class Scenario:
    def __init__(self, ck, name, seconds=None):
        self.ck, self.name = ck, name
        self.S = ck.session
        self.I = self.S.I
        self.S.begin()
        arrays.FLOATED.clear()
        self.scn = sample.Scn()
        self.facts = []
        self.seconds = seconds

    def _name(self, name, sign):
        return name + {"pos": "'", "nonneg": "''", None: ""}.get(sign, "_" + str(sign))

    def real(self, name, sign=None, draw=None):
        s = t.sym(self._name(name, sign), "real", input=True, **({"sign": sign} if sign else {}))
        return self.scn.sym(s, draw)

    def int(self, name, sign=None, draw=None):
        s = t.sym(self._name(name, sign), "int", input=True, **({"sign": sign} if sign else {}))
        return self.scn.sym(s, draw)

    def str(self, name, draw=None):
        return self.scn.sym(t.sym(name, "str"), draw)

    def bool(self, name):
        return self.scn.sym(t.sym(name, "bool"))

    def array(self, name, n, kind="ndarray", dtype="float", sign=None, draw=None):
        """Symbolic input; returns (heap value, fn(i) -> element)."""
        nm = self._name(name, sign)
        a = t.arrsym(nm, dtype, **({"sign": sign} if sign else {}))
        self.scn.array(a, n, draw)
        v = self.S.array(nm, n, dtype, kind)
        return v, (lambda i: t.elem(a, i))

    def elems(self, name, k, kind="ndarray", dtype="float", sign=None, draw=None):
        """k explicit symbolic elements."""
        nm = self._name("%s%d" % (name, k), sign)
        a = t.arrsym(nm, dtype, **({"sign": sign} if sign else {}))
        self.scn.array(a, q(k), draw)
        xs = [t.elem(a, q(i)) for i in range(k)]
        return self.S.elems(xs, dtype, kind), xs

    def assume(self, *fs):
        self.facts.extend(fs)

    def forall(self, n, fn):
        i = t.fresh("z", "int")
        return t.forall(n, t.abstract(i, fn(i)))

    def exists(self, n, fn):
        i = t.fresh("z", "int")
        return t.exists(n, t.abstract(i, fn(i)))

    def call(self, fn, *args, **kwargs):
        if isinstance(fn, str):
            self.entry = fn
            fn = self.S.export(*fn.split("."))
        o = self.S.call(fn, args, kwargs, facts=self.facts)
        o.scenario = self
        self.I.st = o.st if o.st is not None else self.I.st
        return o

    def method(self, out, name, *args, **kwargs):
        """Call a method of the object returned by an earlier call."""
        if out.st is None:
            return out
        out.enter()
        I = self.I
        fn = I.get_attr(out.value, name)
        o = self.S.call(fn, args, kwargs)
        o.scenario = self
        o.base = out
        return o

    def then(self, out, fn, *args, **kwargs):
        """Call an exported function after an earlier call."""
        if out.st is None:
            return out
        out.enter()
        o = self.S.call(self.S.export(*fn.split(".")), args, kwargs)
        o.scenario = self
        o.base = out
        return o

    def attr(self, out, name):
        """Observed attribute of the returned object."""
        if out.st is None:
            return Snap("opq", "the call never returns")
        out.enter()
        I = self.I
        o = self.S.call(lambda: I.get_attr(out.value, name))
        out.more = getattr(out, "more", []) + o.raises
        if o.st is None:
            return Snap("opq", "attribute %s raises" % name)
        v = freeze(I, o.value)
        out.enter()
        if len(o.st.taint) > len(out.st.taint):
            out.st.taint = out.st.taint + tuple(o.st.taint[len(out.st.taint):])
        return v

    def files(self, out):
        """Files written by a call."""
        if out.st is None:
            return Snap("opq", "the call never returns")
        return files(out.st.effects[out.effects0:], out.st.facts)

    def attrs(self, out, names):
        return Snap("rec", {n: self.attr(out, n) for n in names})

    def value(self, out):
        if out.st is None:
            return Snap("opq", "the call never returns")
        out.enter()
        return freeze(self.I, out.value)


# ----------------------------------------------------------------------------------------------


class Obligation:
    def __init__(self, name, rule, where):
        self.name, self.rule, self.where = name, rule, where
        self.status, self.detail, self.witness = UNDECIDED, "", None
        self.tried = 0
        self.total = True  # the calls of the scenario have to return

    def record(self):
        d = {"obligation": self.name, "rule": self.rule, "construct": self.where, "status": self.status}
        if self.detail:
            d["detail"] = self.detail
        if self.tried:
            d["valuations"] = self.tried
        return d


class Check:
    def __init__(self, prop, tier="quick", seed=1, root="/repo", budget=420):
        self.prop, self.tier, self.seed, self.root = prop, tier, seed, root
        self.start = time.time()
        self.budget = budget
        self.obs = []
        self.session = Session(root, "qctrlopencontrols", budget)
        self.functions = set()
        self.notes = []
        self.seen = []
        self.mine = None  # in a worker: which obligations to discharge; in the parent: none

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        return self.budget - (time.time() - self.start)

    def scenario(self, name, **kw):
        return Scenario(self, name, **kw)

    # -- where -----------------------------------------------------------------------------------
    def where(self, fn):
        """file:line name of an exported function, class or method."""
        if not isinstance(fn, str):
            return str(fn)
        parts = fn.split(".")
        v = self.session.export(parts[0])
        for p in parts[1:]:
            if isinstance(v, Mod):
                v = self.session.I.mod_attr(v.name, p)
            elif isinstance(v, Cls):
                a, _ = v.lookup(p)
                if a is None:
                    raise AnalysisBroken("%s has no attribute %s" % (parts[0], p))
                v = getattr(a, "fget", None) or getattr(a, "func", None) or a
        node = getattr(v, "node", None)
        mod = getattr(v, "mod", None)
        path = "?"
        if mod in self.session.I.mods:
            path = os.path.relpath(self.session.I.mods[mod][1], self.root)
        return "%s:%s %s" % (path, getattr(node, "lineno", "?"), fn)

    # -- obligations -----------------------------------------------------------------------------
    def guard(self, name, rule, where, fn):
        """Run fn(ob), recording analysis failures as undecided."""
        ob = Obligation(name, rule, where)
        self.obs.append(ob)
        try:
            ob.where = self.where(where)
        except AnalysisBroken:
            raise
        if self.mine is not None and not self.mine(len(self.obs) - 1):
            return ob
        self.seen.append(ob)
        try:
            if self.left() <= 0:
                ob.detail = "time budget used up"
            else:
                fn(ob)
        except AnalysisBroken:
            raise
        except Budget:
            ob.detail = "analysis budget used up"
        except NeverReturns as e:
            self.never(ob, e.out)
        except Hole as e:
            ob.detail = "not understood: %s" % e
        except RecursionError:
            ob.detail = "analysis gave up: recursion"
        except Exception as e:  # engine limitation: never an alarm
            tb = traceback.extract_tb(sys.exc_info()[2])
            ob.detail = "analysis gave up: %s: %s at %s" % (type(e).__name__, str(e)[:160], [
                "%s:%d" % (os.path.basename(x.filename), x.lineno) for x in tb[-3:]])
            if os.environ.get("PYVG_DEBUG"):
                traceback.print_exc(limit=-4)
        if self.done is not None:
            self.done(len(self.obs) - 1, ob)
        return ob

    done = None

    def run(self, body, known=(), jobs=None):
        """Discharge the obligations of body(self), in worker processes."""
        jobs = jobs or int(os.environ.get("PYVG_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
        self.mine = lambda i: False
        body(self)
        total = len(self.obs)
        jobs = min(jobs, max(1, total))
        old = {x[1] for x in known if x[0] == self.prop}
        pipes, found = {}, False

        def launch(k, after):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    self.work(body, k, jobs, after, w)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            pipes[r] = [pid, k, b"", -1, time.time(), False]

        def stop(fd):
            pid = pipes.pop(fd)[0]
            os.close(fd)
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)

        for k in range(jobs):
            launch(k, -1)
        single = 150 if not self.thorough else 600
        while pipes:
            ready, _, _ = select.select(list(pipes), [], [], 2.0)
            for fd in ready:
                data = os.read(fd, 1 << 16)
                p = pipes[fd]
                if not data:
                    k, at = p[1], p[3]
                    stop(fd)
                    if at < 0 and not p[5]:
                        raise RuntimeError("a worker ended early")
                    if at >= 0:  # died in the middle of an obligation
                        self.obs[at].detail = "analysis gave up: worker ended"
                        launch(k, at)
                    continue
                p[2] += data
                *lines, p[2] = p[2].split(b"\n")
                for line in lines:
                    m = json.loads(line)
                    p[4] = time.time()
                    if m["what"] == "finished":
                        p[5] = True
                    elif m["what"] == "begin":
                        p[3] = m["i"]
                    elif m["what"] == "broken":
                        for f in list(pipes):
                            stop(f)
                        raise AnalysisBroken(m["why"])
                    elif m["what"] == "end":
                        p[3] = -1
                        o = self.obs[m["i"]]
                        o.status, o.detail, o.witness, o.tried = m["status"], m["detail"], m["witness"], m["tried"]
                        self.functions.update(m["visited"])
                        found = found or (o.status == REFUTED and o.name not in old)
            now = time.time()
            for fd, p in list(pipes.items()):
                if p[3] >= 0 and now - p[4] > single:
                    k, at = p[1], p[3]
                    stop(fd)
                    self.obs[at].detail = "analysis budget used up"
                    launch(k, at)
            if pipes and (self.left() < -30 or found and now - self.start > 200):
                for fd in list(pipes):
                    stop(fd)
                for o in self.obs:
                    if o.status == UNDECIDED and not o.detail:
                        o.detail = "not examined: a violation was already found" if found else "time budget used up"

    def work(self, body, k, jobs, after, fd):
        """Worker: obligations k, k + jobs, ... beyond the given one."""
        def send(**m):
            data = (json.dumps(m, default=str) + "\n").encode()
            while data:
                data = data[os.write(fd, data):]

        def mine(i):
            if i <= after or i % jobs != k:
                return False
            send(what="begin", i=i)
            return True

        def done(i, ob):
            send(what="end", i=i, status=ob.status, detail=ob.detail, witness=ob.witness, tried=ob.tried,
                 visited=sorted(self.session.I.visited))

        self.obs, self.mine, self.done = [], mine, done
        try:
            body(self)
            send(what="finished")
        except AnalysisBroken as e:
            send(what="broken", why=str(e))

    def never(self, ob, out):
        """The obligation needs the result of a call that cannot return."""
        ob.detail = "the call never returns"
        sc = getattr(out, "scenario", None)
        if sc is None or not ob.total:
            return
        self.settle(ob, False, lambda: self.refute(ob, sc, out, NONE, t.string("a result")), out.taint, ob.detail)

    def settle(self, ob, proved, refute, taint, holes=""):
        if taint:
            ob.status, ob.detail = UNDECIDED, "effects not understood: %s" % (str(taint)[:300])
            return
        if proved:
            ob.status = PROVED
            if os.environ.get("PYVG_CROSS") and refute:  # for testing the checker itself
                w = refute()
                if w or not ob.tried:
                    print("CROSS %s %s: %s" % (self.prop, ob.name, w or "no valuation"), flush=True)
            return
        w = refute() if refute else None
        if w:
            ob.status = REFUTED
            ob.witness = w
            ob.detail = "%s: code gives %s, expected %s" % (w["path"], short(w["code"]), short(w["expected"]))
        else:
            ob.detail = holes or "normal forms differ; no distinguishing valuation among %d" % ob.tried

    def patience(self, sc):
        """Seconds spent on valuations: less once many obligations turned out not to be understood."""
        if os.environ.get("PYVG_CROSS"):
            return float(os.environ["PYVG_CROSS"])
        if sc.seconds:
            return sc.seconds
        open_ = sum(1 for o in self.seen[:-1] if o.status == UNDECIDED)
        return 6.0 if open_ < 8 else 2.0 if open_ < 40 else 0.7

    def prover(self):
        return Prover(seconds=max(2.0, min(40.0 if not self.thorough else 120.0, self.left() / 4)))

    def equal(self, ob, sc, out, code, spec, may_raise=False, slack=0):
        """The call returns (unless may_raise) and the data equals spec (a difference below slack is no violation)."""
        holes, proved = "", False
        raises = all_raises(out)
        if out.st is not None:
            try:
                pr = self.prover()
                proved = prove(pr, code, spec, out.st.facts)
                if proved and not may_raise and raises:
                    proved = all(pr.entails(r.facts, t.lnot(r.cond)) for r in raises if r.cond is not FALSE)
                    holes = "" if proved else "not shown to return for all inputs"
            except compare.Limit:
                pass
            except Hole as e:
                holes = "not understood: %s" % e
        self.settle(ob, proved, lambda: self.refute(ob, sc, out, code, spec, may_raise, slack), out.taint, holes)

    def refute(self, ob, sc, out, code, spec, may_raise=False, slack=0):
        base = list(first_facts(out).items)
        raises = all_raises(out)
        hints = list(terms_of(code)) + list(terms_of(spec)) + base + [r.cond for r in raises]
        for env in sample.valuations(sc.scn, base, hints, self.seed, seconds=self.patience(sc)):
            hit = [(r, true_at(env, r.cond)) for r in raises]
            try:
                want = conc(spec, env)
            except (Unknown, Undefined, ZeroDivisionError):
                continue
            bad = [r for r, v in hit if v is True]
            if bad:
                if may_raise or not steady(env, bad[0].cond, True) or not firm(env, base):
                    continue
                ob.tried += 1
                return {"path": ob.name, "code": "%s raised at %s" % (bad[0].name, bad[0].site),
                        "expected": show(want), "valuation": env.describe()}
            if any(v is None for _, v in hit) or out.st is None:
                continue
            try:
                got = conc(code, env, True)
                if got is BLANK:
                    continue
            except (Undefined, ZeroDivisionError) as e:
                ob.tried += 1
                if not undefined(env, code) or not firm(env, base):
                    continue
                return {"path": ob.name, "code": "not a finite number (%s)" % e, "expected": show(want),
                        "valuation": env.describe()}
            ob.tried += 1
            d = differ(got, want, slack=slack)
            if d and steady(env, code, got) and steady(env, spec, want) and firm(env, base):
                return {"path": d[0] or ob.name, "code": d[1], "expected": d[2], "valuation": env.describe()}
        return None

    def condition(self, ob, sc, code, spec, facts, taint=(), sites=None):
        """Boolean code condition equals spec under facts."""
        f = facts if isinstance(facts, Facts) else Facts(facts)
        pr = self.prover()
        proved = not unknown(code) and pr.equal(code, spec, f)

        def refute():
            for env in sample.valuations(sc.scn, list(f.items), [code, spec] + list(f.items), self.seed,
                                         seconds=self.patience(sc)):
                try:
                    want = env.truth(spec)
                    got = env.truth(code)
                except (Unknown, Undefined, ZeroDivisionError):
                    continue
                ob.tried += 1
                if want != got and steady(env, code, got) and steady(env, spec, want) and firm(env, f.items):
                    at = ""
                    if sites:
                        at = [s for c, s in sites if true_at(env, c)]
                    return {"path": ob.name, "code": got, "expected": want, "valuation": env.describe(),
                            "sites": at}
            return None

        self.settle(ob, proved, refute, taint)

    def holds(self, ob, sc, cond, facts, taint=()):
        f = facts if isinstance(facts, Facts) else Facts(facts)
        proved = not unknown(cond) and self.prover().entails(f, cond)

        def refute():
            for env in sample.valuations(sc.scn, list(f.items), [cond] + list(f.items), self.seed,
                                         seconds=self.patience(sc)):
                try:
                    got = env.truth(cond)
                except (Unknown, Undefined, ZeroDivisionError):
                    continue
                ob.tried += 1
                if not got and steady(env, cond, got) and firm(env, f.items):
                    return {"path": ob.name, "code": False, "expected": True, "valuation": env.describe()}
            return None

        self.settle(ob, proved, refute, taint)

    def rejects(self, ob, sc, out, spec):
        """The call raises exactly when spec holds (under the scenario's assumptions)."""
        cond = t.lor(*[r.cond for r in out.raises])
        sites = [(r.cond, "%s raised at %s" % (r.name, r.site)) for r in out.raises]
        self.condition(ob, sc, cond, spec, out.facts, out.taint, sites)

    def only(self, ob, sc, out, names=("ArgumentsValueError",)):
        """Every raise reachable in the scenario is of a named class."""
        bad = [r for r in out.raises if not set(r.mro) & set(names)]
        cond = t.lnot(t.lor(*[r.cond for r in bad]))
        self.holds(ob, sc, cond, out.facts, out.taint)
        if ob.status == REFUTED:
            ob.detail = "%s may escape: %s" % (sorted({r.name for r in bad}), [str(r.site) for r in bad][:3])

    def fact(self, ob, ok, detail="", witness=None):
        ob.status = PROVED if ok else REFUTED
        ob.detail = detail if not ok else ob.detail
        if not ok:
            ob.witness = witness or {"path": ob.name, "code": detail, "expected": ob.rule}

    # -- outcome ---------------------------------------------------------------------------------
    def finish(self, minimum, known=(), evidence=None):
        evidence = evidence or os.path.join(HERE, "evidence")
        counts = {s: sum(1 for o in self.obs if o.status == s) for s in (PROVED, REFUTED, UNDECIDED)}
        I = self.session.I
        bad = [o for o in self.obs if o.status == REFUTED]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "abstract interpretation of the source into gated value graphs; each obligation "
                               "compares an extracted normal form with the specification",
                "obligations": len(self.obs), "proved": counts[PROVED], "undecided": counts[UNDECIDED],
                "refuted": counts[REFUTED],
                "functions_analysed": sorted(self.functions | set(I.visited)),
                "records": [o.record() for o in self.obs][:400],
            },
            "violations": len(bad),
            "assumptions": ["inputs are finite real numbers; arithmetic is exact (no rounding)",
                            "numpy, json, csv and builtins behave as documented for the modelled subset"],
            "wall_s": round(time.time() - self.start, 3),
        }
        os.makedirs(evidence, exist_ok=True)
        with open(os.path.join(evidence, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print("%s: %d obligations: %d proved, %d undecided, %d refuted; %d functions analysed; %.1f s" % (
            self.prop, len(self.obs), counts[PROVED], counts[UNDECIDED], counts[REFUTED],
            len(ev["coverage"]["functions_analysed"]), ev["wall_s"]))
        for o in self.obs:
            if o.status == UNDECIDED:
                print("  undecided: %s [%s] %s" % (o.name, o.where, o.detail[:300]))
        if len(self.obs) < minimum:
            print("ANALYSIS-BROKEN: %d obligations generated, at least %d expected" % (len(self.obs), minimum))
            return 2
        code = 0
        if bad:
            new = []
            for o in bad:
                k = [x for x in known if x[0] == self.prop and x[1] == o.name]
                if k:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k[0][2]))
                else:
                    new.append(o)
            if new:
                path = os.path.join(evidence, self.prop + ".replay.json")
                with open(path, "w") as fh:
                    json.dump([dict(o.record(), witness=o.witness) for o in new], fh, indent=1, default=str)
                for o in new:
                    print("  violated: %s [%s] rule: %s" % (o.name, o.where, o.rule))
                    print("    %s" % o.detail[:600])
                    if o.witness and o.witness.get("valuation") is not None:
                        print("    for example with %s" % json.dumps(o.witness["valuation"], default=str)[:600])
                    if o.witness and o.witness.get("sites"):
                        print("    at %s" % o.witness["sites"])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                code = 1
        return code


def all_raises(out):
    rs = list(out.raises) + getattr(out, "more", [])
    b = getattr(out, "base", None)
    while b is not None:
        rs += b.raises + getattr(b, "more", [])
        b = getattr(b, "base", None)
    return rs


def first_facts(out):
    """Assumptions of the scenario, before any call (plus ones added to the last outcome)."""
    b = getattr(out, "base", None)
    if b is None:
        return out.facts
    own = getattr(out, "extra", ())
    while getattr(b, "base", None) is not None:
        b = b.base
    return b.facts.add(*own)


def true_at(env, c):
    try:
        return env.truth(c)
    except (Unknown, Undefined, ZeroDivisionError):
        return None


def short(v):
    s = json.dumps(v, default=str)
    return s if len(s) < 240 else s[:240] + "..."


def terms_of(x, depth=0):
    """Terms occurring in data, for choosing boundary valuations."""
    if depth > 4:
        return
    if isinstance(x, T):
        yield x
    elif isinstance(x, Snap):
        k, d = x.kind, x.data
        if k == "arr":
            for s in d.shape:
                yield s
            try:
                v = d.get(tuple(t.bv(9990 + j) for j in range(d.ndim))) if d.flat is None else None
                if isinstance(v, T):
                    yield v
                for v in (d.flat or [])[:12]:
                    if isinstance(v, T):
                        yield v
            except Exception:
                pass
        elif k == "seq":
            sq = d[0]
            yield sq.n
            try:
                if sq.items is not None:
                    for v in sq.items[:6]:
                        yield from terms_of(v, depth + 1)
                else:
                    yield from terms_of(lift(sq.get(t.bv(9980))), depth + 1)
            except Exception:
                pass
        elif k == "dict":
            for c, v in d.values():
                yield c
                yield from terms_of(v, depth + 1)
        elif k == "rec":
            for v in d.values():
                yield from terms_of(v, depth + 1)
        elif k == "phi":
            yield d[0]
            yield from terms_of(d[1], depth + 1)
            yield from terms_of(d[2], depth + 1)
    elif isinstance(x, (A, L)):
        yield x.n
        if x.n.op == "q":
            for k in range(min(6, int(x.n.args[0]))):
                yield from terms_of(x.fn(q(k)), depth + 1)
        else:
            yield from terms_of(x.fn(t.bv(9970)), depth + 1)
    elif isinstance(x, D):
        for v in x.entries.values():
            yield from terms_of(v, depth + 1)
    elif isinstance(x, R):
        for v in x.fields.values():
            yield from terms_of(v, depth + 1)


# ----------------------------------------------------------------------------------------------
# files written by a call


def files(effects, facts):
    """Snap describing the files written: rec of path, mode and content; phi on conditional effects."""
    return _files(list(effects), [], facts)


def _files(todo, done, facts):
    done = list(done)
    while todo:
        e = todo.pop(0)
        k = e[0]
        if k == "if":
            c, a, b = e[1], list(e[2]), list(e[3])
            if not any(touches(x) for x in a + b):
                continue
            r = facts.decide(c)
            if r is TRUE:
                todo = a + todo
            elif r is FALSE:
                todo = b + todo
            else:
                return Snap("phi", (c, _files(a + todo, done, facts.add(c)), _files(b + todo, done,
                                                                                    facts.add(t.lnot(c)))))
        elif touches(e):
            done.append(e)
    return _file_record(done)


def touches(e):
    if e[0] == "loop":
        return any(touches(x) for x in e[3])
    if e[0] == "if":
        return any(touches(x) for x in tuple(e[2]) + tuple(e[3]))
    return e[0] in ("open", "write", "json", "csvrow", "fs", "nondet", "unknown", "warn", "print")


def _file_record(es):
    for e in es:
        if e[0] in ("fs", "unknown"):
            raise Hole("effect %s" % (e,))
    opens = [e for e in es if e[0] == "open"]
    if any(e[0] == "loop" and any(x[0] == "open" for x in e[3]) for e in es):
        raise Hole("file opened in a loop")
    wr = [e for e in opens if e[3].op != "str" or set(e[3].args[0]) & set("wax+")]
    rec = {"files written": q(len(wr))}
    if len(wr) == 1:
        o = wr[0]
        rec["path"] = o[2]
        m = o[3]
        rec["mode"] = t.string("truncate") if m.op == "str" and m.args[0].replace("t", "") in ("w", "w+") else m
        body = [e for e in es if (e[0] in ("json", "csvrow", "write") and e[1] == o[1]) or e[0] == "loop"]
        rec.update(_content(body))
    return Snap("rec", rec)


def _content(body):
    from .values import ESeq, FSeq, concat

    js = [e for e in body if e[0] == "json"]
    if js:
        for e in body:
            if e[0] == "json" or (e[0] == "write" and isinstance(e[2], T) and e[2].op == "str"
                                  and not e[2].args[0].strip()):
                continue
            raise Hole("mixed file content")
        if len(js) != 1:
            raise Hole("several JSON documents")
        return {"json": js[0][2]}
    parts, dialect = [], None
    for e in body:
        if e[0] == "csvrow":
            parts.append(ESeq([row_snap(e[2], None, None)]))
            dialect = e[3]
        elif e[0] == "loop":
            n, k, suf = e[1], e[2], e[3]
            rows = [x for x in suf if touches(x)]
            if len(rows) != 1 or rows[0][0] != "csvrow":
                raise Hole("file written in a loop")
            dialect = rows[0][3]
            parts.append(FSeq(n, lambda i, r=rows[0][2], k=k: row_snap(r, k, i)))
        else:
            raise Hole("text written")
    if not parts:
        return {}
    tot = concat(parts)
    dl = (dialect or {}).get("delimiter", ",")
    return {"delimiter": dl if isinstance(dl, T) else t.string(str(dl)),
            "header": tot.get(ZERO),
            "rows": Snap("seq", (FSeq(t.sub(tot.n, ONE), lambda i: tot.get(t.add(i, ONE))), "list"))}


def row_snap(row, k, i):
    from .values import ESeq

    def val(v):
        if isinstance(v, T):
            return v if k is None else t.subst(v, {k: i})
        return Snap("opq", repr(v)[:100])

    if row.items is None:
        return Snap("opq", "row of unknown length")
    return Snap("seq", (ESeq([val(v) for v in row.items]), "list"))
