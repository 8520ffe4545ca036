"""Small changes to the source that keep the tests passing, and which checks notice them.

  mutate.py WORKDIR gen            write every mutant, run the tests, keep the survivors
  mutate.py WORKDIR run [SUBSTR]   run the checks on the survivors; stops at the first that objects

Works in scratch copies under WORKDIR; reads /repo only.
"""

import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "qctrlopencontrols/"
FILES = [PKG + f for f in ("exceptions.py", "utils.py", "driven_controls/driven_control.py", "driven_controls/predefined.py",
                           "dynamic_decoupling_sequences/dynamic_decoupling_sequence.py",
                           "dynamic_decoupling_sequences/predefined.py")]
CHECKS = {"exceptions.py": "C31 C11 C23", "utils.py": "C31 C07 C16 C06 C28 C04 C05 C11 C23 C15 C02",
          "driven_control.py": "C01 C02 C03 C04 C05 C06 C07 C29 C30 C31 C32 C08 C09 C28 C27 C13 C12",
          "driven_controls/predefined.py": "C08 C09 C10 C11 C12 C13 C31 C32 C33 C30 C14",
          "dynamic_decoupling_sequence.py": "C15 C16 C29 C31 C32 C28 C06 C26 C27 C30 C14 C25",
          "dynamic_decoupling_sequences/predefined.py": "C18 C19 C21 C22 C31 C34 C30 C32 C14 C23 C20"}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv],
       ast.Pow: [ast.Mult]}
SWAP = {"sin": "cos", "cos": "sin", "amax": "amin", "amin": "amax", "max": "min", "min": "max", "zeros": "ones", "ones": "zeros",
        "ceil": "floor", "floor": "ceil", "arccos": "arcsin", "arcsin": "arccos", "cumsum": "cumprod", "sum": "prod",
        "all": "any", "any": "all", "logical_and": "logical_or", "logical_or": "logical_and", "abs": "asarray", "sqrt": "abs",
        "greater": "greater_equal", "repr": "str", "str": "repr", "append": "extend"}


def docstring(body):
    return body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
        body[0].value.value, str)


def mutants(tree):
    """Yields (description, line, mutated tree)."""
    nodes = []

    def collect(node, skip):
        for f, v in ast.iter_fields(node):
            vs = v if isinstance(v, list) else [v]
            for i, x in enumerate(vs):
                if isinstance(x, ast.AST):
                    if f in ("annotation", "returns"):
                        continue
                    if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and f == "body" and i == 0 and docstring(node.body):
                        continue
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        continue
                    collect(x, skip)
        nodes.append(node)

    collect(tree, False)
    for node in nodes:
        for desc, change in changes(node):
            saved = copy.deepcopy(node.__dict__)
            line = getattr(node, "lineno", 0)
            old = snippet(node)
            keep = dict(node.__dict__)
            cls = node.__class__
            try:
                change(node)
                new = snippet(node)
                src = ast.unparse(ast.fix_missing_locations(tree))
            finally:
                node.__class__ = cls
                node.__dict__.clear()
                node.__dict__.update(keep)
            del saved
            yield "%s: %s -> %s" % (desc, old[:70], new[:70]), line, src


def snippet(n):
    try:
        return " ".join(ast.unparse(n).split())
    except Exception:
        return type(n).__name__


def put(attr, v):
    return lambda n: setattr(n, attr, v)


def drop(attr, i):
    def go(n):
        xs = list(getattr(n, attr))
        del xs[i]
        if not xs and attr == "body":
            xs = [ast.Pass()]
        setattr(n, attr, xs)

    return go


def put_at(attr, i, v):
    def go(n):
        xs = list(getattr(n, attr))
        xs[i] = v
        setattr(n, attr, xs)

    return go


def become(new):
    def go(n):
        n.__class__ = new.__class__
        n.__dict__.clear()
        n.__dict__.update(new.__dict__)

    return go


def changes(n):
    out = []
    if isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            for c in CMP.get(type(o), []):
                out.append(("cmp", put_at("ops", i, c())))
    if isinstance(n, ast.BinOp):
        for c in BIN.get(type(n.op), []):
            out.append(("op", put("op", c())))
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            out.append(("left", become(n.left)))
            out.append(("right", become(n.right)))
    if isinstance(n, ast.BoolOp):
        out.append(("bool", put("op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
    if isinstance(n, ast.UnaryOp):
        out.append(("unary", become(n.operand)))
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            out.append(("const", put("value", not v)))
        elif isinstance(v, (int, float)):
            out.append(("const", put("value", v + 1)))
            out.append(("const", put("value", v / 2 if isinstance(v, float) else v - 1)))
        elif isinstance(v, str):
            out.append(("str", put("value", v + "x" if v else "x")))
    if isinstance(n, (ast.If, ast.IfExp)):
        out.append(("if", put("test", ast.Constant(True))))
        out.append(("if", put("test", ast.Constant(False))))
    if isinstance(n, ast.Attribute) and n.attr in SWAP:
        out.append(("fn", put("attr", SWAP[n.attr])))
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Name) and n.func.id in SWAP:
            out.append(("fn", put("func", ast.Name(SWAP[n.func.id], ast.Load()))))
        for i in range(len(n.keywords)):
            out.append(("kw", drop("keywords", i)))
        if len(n.args) == 1 and not n.keywords:
            out.append(("call", become(n.args[0])))
        for i in range(len(n.args) - 1):
            def sw(m, i=i):
                xs = list(m.args)
                xs[i], xs[i + 1] = xs[i + 1], xs[i]
                m.args = xs

            out.append(("args", sw))
        ks = n.keywords
        for i in range(len(ks) - 1):
            def kw(m, i=i):
                xs = [ast.keyword(k.arg, k.value) for k in m.keywords]
                xs[i].value, xs[i + 1].value = xs[i + 1].value, xs[i].value
                m.keywords = xs

            out.append(("kwswap", kw))
    if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
        for i in range(len(n.elts)):
            out.append(("drop", drop("elts", i)))
        for i in range(len(n.elts) - 1):
            def sw(m, i=i):
                xs = list(m.elts)
                xs[i], xs[i + 1] = xs[i + 1], xs[i]
                m.elts = xs

            out.append(("swap", sw))
    if isinstance(n, ast.Slice):
        for f in ("lower", "upper"):
            if getattr(n, f) is not None:
                out.append(("slice", put(f, None)))
    if isinstance(n, ast.comprehension) and n.ifs:
        out.append(("compif", put("ifs", [])))
    for f in ("body", "orelse"):
        xs = getattr(n, f, None)
        if isinstance(xs, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
            start = 1 if f == "body" and docstring(xs) else 0
            for i in range(start, len(xs)):
                if isinstance(xs[i], (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.If, ast.For)):
                    out.append(("delete %s" % snippet(xs[i])[:40], drop(f, i)))
            for i in range(start, len(xs) - 1):
                if isinstance(xs[i], (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(xs[i + 1], (ast.Assign, ast.AugAssign, ast.Expr)):
                    def sw(m, f=f, i=i):
                        ys = list(getattr(m, f))
                        ys[i], ys[i + 1] = ys[i + 1], ys[i]
                        setattr(m, f, ys)

                    out.append(("reorder %s" % snippet(xs[i])[:40], sw))
    if isinstance(n, ast.FunctionDef):
        a = n.args
        for i, d in enumerate(a.defaults):
            pass
        for i in range(len(a.args) - 1 - len(a.defaults)):
            if a.args[i].arg == "self":
                continue

            def sw(m, i=i):
                b = copy.copy(m.args)
                xs = list(b.args)
                xs[i], xs[i + 1] = xs[i + 1], xs[i]
                b.args = xs
                m.args = b

            out.append(("params %s" % n.name, sw))
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        for pair in (("rabi_rotations", "detuning_rotations"), ("rabi_rates", "detunings"), ("azimuthal_angles", "detunings"),
                     ("maximum_rabi_rate", "maximum_detuning_rate"), ("x_pi_pulses", "y_pi_pulses"), ("y_pi_pulses", "z_pi_pulses"),
                     ("theta_plus", "theta_minus"), ("inner_offset_count", "outer_offset_count"), ("plot_x", "plot_y"),
                     ("offsets", "rabi_rotations"), ("arguments", "extras")):
            for x, y in (pair, pair[::-1]):
                if n.id == x:
                    out.append(("name", put("id", y)))
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def gen(work):
    os.makedirs(work, exist_ok=True)
    jobs = []
    for f in FILES:
        tree = ast.parse(open("/repo/" + f).read())
        seen = {ast.unparse(tree)}
        for desc, line, src in mutants(tree):
            if src not in seen:
                seen.add(src)
                jobs.append((f, desc, line, src))
    print(len(jobs), "mutants")
    pools = []
    for k in range(7):
        d = os.path.join(work, "w%d" % k)
        if not os.path.exists(d):
            sh(["git", "clone", "-q", "/repo", d])
        pools.append(d)
    import queue

    free = queue.Queue()
    for d in pools:
        free.put(d)
    out = []

    def one(job):
        f, desc, line, src = job
        d = free.get()
        try:
            p = os.path.join(d, f)
            orig = open("/repo/" + f).read()
            with open(p, "w") as fh:
                fh.write(src)
            try:
                x = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", d + "/tests"], cwd=d,
                       env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), timeout=60)
                ok = x.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            with open(p, "w") as fh:
                fh.write(orig)
            if ok:
                out.append({"file": f, "desc": desc, "line": line, "src": src})
        finally:
            free.put(d)

    with ThreadPoolExecutor(7) as ex:
        list(ex.map(one, jobs))
    out.sort(key=lambda m: (m["file"], m["line"], m["desc"]))
    for i, m in enumerate(out):
        m["id"] = i
    json.dump(out, open(os.path.join(work, "survivors.json"), "w"))
    print(len(out), "survive the tests")


def run(work, want):
    ms = json.load(open(os.path.join(work, "survivors.json")))
    ms = [m for m in ms if want in "%d %s %s" % (m["id"], m["file"], m["desc"])]

    def one(m):
        d = os.path.join(work, "r%d" % m["id"])
        shutil.rmtree(d, ignore_errors=True)
        sh(["git", "clone", "-q", "/repo", d])
        with open(os.path.join(d, m["file"]), "w") as fh:
            fh.write(m["src"])
        cs = [v for k, v in CHECKS.items() if m["file"].endswith(k)][0].split()
        got, odd = None, []
        for c in cs:
            try:
                x = sh(["python3-vt", os.path.join(HERE, "run_check.py"), c, "--root", d, "--evidence", d + "/ev"], timeout=900)
            except subprocess.TimeoutExpired:
                odd.append(c + ":timeout")
                continue
            if x.returncode == 1:
                got = c
                break
            if x.returncode:
                odd.append("%s:%d" % (c, x.returncode))
            n = [w for w in x.stdout.split("\n") if "obligations:" in w]
            if n and " 0 undecided" not in n[0]:
                odd.append(c + ":" + n[0].split("proved, ")[1].split(" ")[0] + "u")
        shutil.rmtree(d, ignore_errors=True)
        print("%s %4d %s:%d %s %s" % (got or "MISS", m["id"], m["file"].split("/", 1)[1], m["line"], m["desc"], odd or ""), flush=True)

    with ThreadPoolExecutor(7) as ex:
        list(ex.map(one, ms))


if __name__ == "__main__":
    if sys.argv[2] == "gen":
        gen(sys.argv[1])
    else:
        run(sys.argv[1], sys.argv[3] if len(sys.argv) > 3 else "")
