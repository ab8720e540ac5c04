"""Detected errors reach the caller.

All functions of the package are searched for the ways in which a detected error gets lost: an error object that is
constructed but not raised, a discarded verdict, an assertion of a tuple, a raise of something that is no exception, a
jump out of a finally block, contextlib.suppress, and exception handlers with a path that continues normally. For every
such handler the errors it can swallow are collected through the call graph (explicit raises, assertions, checking
routines); handlers that fall back on purpose are in a reviewed table.
"""
import ast
import builtins
from ..core import Finding, Result
from ..project import FuncInfo, ClassInfo, dotted

RULE = ("no constructed error is dropped, no verdict is discarded, and no handler that continues normally catches an error "
        "that is raised on purpose below its try block, except the reviewed fallbacks")
ASSUMPTIONS = ["calls of methods are resolved by name (over-approximation)"]
MINIMUM = {"functions": 350, "raise_sites": 250, "handlers": 30, "statements": 3000}

# (module, caught exception, a callee that must occur in the try block): documented fallback
FALLBACKS = [
    ("edmd.py", "Exception", "fit", "error_score of the cross validation: reported by FitFailedWarning, value of the user"),
    ("edmd.py", "NotFittedError", "check_is_fitted", "tests whether the model is fitted"),
    ("edmd.py", "TypeError", "reconstruct", "model without windows; a second call raises the error again"),
    ("mpc.py", "RuntimeError", "eval_sys", "the user's system reports its termination"),
    ("mpc.py", "KeyError", "pop", "default of an option"),
    ("dictlearning.py", "TypeError", "step", "two signatures of learning rate schedulers in torch"),
    ("dmap.py", "NumericalMathError", "compute_kernel_eigenpairs", "raised again with more details"),
    ("dmd.py", "LinAlgError", "eigs", "the resolvent does not exist, residual is infinite"),
    ("transform.py", "NotFittedError", "check_is_fitted", "first call of partial_fit fits the model"),
    ("estimators.py", "AttributeError", "_warn_if_not_gaussian_kernel", "only a warning is left out"),
    ("accessor.py", "AttributeError", "TSCDataFrame", "the result is no legal collection, documented to be returned as frame"),
    ("accessor.py", "AssertionError", "assert_series_equal", "comparison as truth value, the caller decides"),
    ("collection.py", "AttributeError", "TSCDataFrame", "the slice is no legal collection, documented to be returned as frame"),
    ("collection.py", "AttributeError", "_validate", "the slice is no legal collection, documented to be returned as frame"),
    ("collection.py", "AttributeError", "isinstance", "positional slices stay series, documented"),
    ("dictlearning.py", "AttributeError", "super", "torch is not installed: the classes do not exist"),
    ("general.py", "AssertionError", "assert_index_equal", "comparison as truth value, raised again on request")]
LOOKUP = {"AttributeError", "KeyError", "IndexError", "StopIteration", "ImportError", "ModuleNotFoundError", "NotFittedError", "LookupError"}
PREDICATES = {"check_is_fitted", "hasattr", "getattr", "isinstance", "issubclass", "len", "type", "float", "int", "next", "iter"}


def is_exc(p, mod, node):
    """the class (name) of an exception constructor call / reference, None if it is something else"""
    d = dotted(node.func if isinstance(node, ast.Call) else node)
    if d is None:
        return None
    r = p.resolve(mod, d)
    if isinstance(r, ClassInfo):
        if any(isinstance(b, str) and (b.split(".")[-1].endswith(("Error", "Exception", "Warning"))) for b in p.mro(r)):
            return r.name
        return None
    last = (r if isinstance(r, str) else d).split(".")[-1]
    if isinstance(r, (FuncInfo, tuple)):
        return None
    b = getattr(builtins, last, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return last
    if isinstance(r, str) and "." in r and last.endswith(("Error", "Exception")) and last[0].isupper():
        return last
    return None


EXT_BASES = {"NotFittedError": {"ValueError", "AttributeError"}, "LinAlgError": {"ValueError"}, "NumericalMathError": set(),
             "ArpackNoConvergence": {"RuntimeError"}}


def supers(p, name):
    out, todo = set(), [name]
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.add(n)
        b = getattr(builtins, n, None)
        if isinstance(b, type):
            out |= {x.__name__ for x in b.__mro__}
        todo += list(EXT_BASES.get(n, ()))
        for c in p.all_classes():
            if c.name == n:
                todo += [x.name if isinstance(x, ClassInfo) else x[4:].split(".")[-1] for x in c.bases]
    return out | {"Exception", "BaseException"}


def own_nodes(f):
    """nodes of a function without those of nested functions"""
    todo = list(f.body if hasattr(f, "body") else [])
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo += list(ast.iter_child_nodes(n))


class Raises:
    """explicitly raised exception classes of every function, transitively (by callee name)"""

    def __init__(self, p):
        self.p = p
        self.direct, self.calls = {}, {}
        for f in list(p.all_functions()):
            d, c = set(), set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    e = is_exc(p, f.module, n.exc)
                    if e:
                        d.add(e)
                elif isinstance(n, ast.Assert):
                    d.add("AssertionError")
                elif isinstance(n, ast.Call):
                    c.add(callee(n))
            self.direct.setdefault(f.name, set()).update(d)
            self.calls.setdefault(f.name, set()).update(c)
            if f.cls is not None and f.name == "__init__":
                self.direct.setdefault(f.cls.name, set()).update(d)
                self.calls.setdefault(f.cls.name, set()).update(c)
        self.memo = {}

    def of(self, name):
        if name in self.memo:
            return self.memo[name]
        seen, todo, out = set(), [name], set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n.startswith("assert_"):
                out.add("AssertionError")
            elif n in ("check_array", "check_scalar", "check_X_y", "_validate_data"):
                out |= {"ValueError", "TypeError"}
            out |= self.direct.get(n, set())
            todo += list(self.calls.get(n, ()))
        self.memo[name] = out
        return out


def callee(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else "?"


def never(p, mod, body, depth=0):
    """statement list that never completes normally (and does not jump either)"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.If) and s.orelse and never(p, mod, s.body, depth) and never(p, mod, s.orelse, depth):
            return True
        if isinstance(s, ast.With) and never(p, mod, s.body, depth):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and depth < 3:
            nm = callee(s.value)
            fs = [f for f in p.all_functions() if f.name == nm]
            if fs and all(never(p, f.module, f.node.body, depth + 1) for f in fs):
                return True
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in ast.walk(s)):
            return False
    return False


def verdict(e):
    """a comparison/boolean of something that is not constant"""
    if isinstance(e, ast.BoolOp):
        return any(verdict(x) for x in e.values) and not any(isinstance(x, (ast.Call, ast.Await)) for x in e.values[1:])
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return verdict(e.operand) or isinstance(e.operand, (ast.Call, ast.Name, ast.Attribute))
    return isinstance(e, ast.Compare) and any(isinstance(x, (ast.Name, ast.Attribute)) for x in ast.walk(e)) and \
        ast.dump(e.left) != ast.dump(e.comparators[0])


def scan(res, p, R, mod, owner, node):
    n_own = list(own_nodes(node))
    loads = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    glob = {g for x in n_own if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
    isfun = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))

    def add(kind, n, msg, extra=""):
        res.add(Finding(f"{kind}|{owner}|{extra or ast.unparse(n)[:40]}".replace(" ", "_"), msg + f" ({owner})", f"{mod.rel}:{n.lineno}",
                        "P12-" + kind, [owner]))
    for n in n_own:
        if isinstance(n, ast.stmt):
            res.count("statements")
        if isinstance(n, ast.Expr):
            e = n.value
            if isinstance(e, ast.Call):
                x = is_exc(p, mod, e)
                if x and x != "Warning" and not x.endswith("Warning"):
                    add("dropped", n, f"an error of class {x} is constructed but not raised")
            elif verdict(e):
                add("verdict", n, f"the verdict '{ast.unparse(e)[:60]}' is discarded")
            elif isinstance(e, (ast.Name, ast.Attribute)) and is_exc(p, mod, e):
                add("dropped", n, "an error class is named but not raised")
        elif isinstance(n, ast.Assign) and isfun and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            t = n.targets[0].id
            if isinstance(n.value, ast.Call) and is_exc(p, mod, n.value) and t not in loads and t not in glob:
                add("dropped", n, f"the error assigned to '{t}' is never raised")
        elif isinstance(n, ast.Assert):
            if isinstance(n.test, ast.Tuple) and n.test.elts:
                add("tuple", n, "an assertion of a tuple is always true")
        elif isinstance(n, ast.Raise) and n.exc is not None:
            res.count("raise_sites")
            e = n.exc
            bad = isinstance(e, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.JoinedStr))
            d = dotted(e.func if isinstance(e, ast.Call) else e)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and any(isinstance(x, ast.ExceptHandler) and x.name == e.func.id for x in n_own):
                bad = True  # an exception object is called
            if d in ("NotImplemented", "warnings.warn", "print") or d and d.endswith("Warning") and False:
                bad = True
            if bad:
                add("nonexc", n, f"'raise {ast.unparse(e)[:40]}' does not raise the intended error")
        elif isinstance(n, ast.Try):
            for x in n.finalbody:
                for y in ast.walk(x):
                    if isinstance(y, ast.Return):
                        add("finally", y, "a return in a finally block swallows every error")
            for h in n.handlers:
                res.count("handlers")
                handler(res, p, R, mod, owner, n, h, add)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                c = i.context_expr
                if isinstance(c, ast.Call) and callee(c) == "suppress":
                    t = ast.Try(body=n.body, handlers=[], orelse=[], finalbody=[])
                    ty = c.args[0] if len(c.args) == 1 else ast.Tuple(elts=list(c.args), ctx=ast.Load())
                    h = ast.ExceptHandler(type=ty, name=None, body=[ast.copy_location(ast.Pass(), n)])
                    handler(res, p, R, mod, owner, t, ast.copy_location(h, n), add)


def handler(res, p, R, mod, owner, tr, h, add):
    if never(p, mod, h.body):
        return
    types = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else list(h.type.elts) if h.type is not None else []
    caught = [(dotted(t) or "?").split(".")[-1] for t in types] or ["BaseException"]
    calls = {callee(c) for s in tr.body for c in ast.walk(s) if isinstance(c, ast.Call)}
    raised = {}
    for c in calls - PREDICATES:
        for e in R.of(c):
            raised.setdefault(e, set()).add(c)
    for s in tr.body:
        for c in ast.walk(s):
            if isinstance(c, ast.Raise) and c.exc is not None and is_exc(p, mod, c.exc):
                raised.setdefault(is_exc(p, mod, c.exc), set()).add("raise")
            elif isinstance(c, ast.Assert):
                raised.setdefault("AssertionError", set()).add("assert")
    base = mod.rel.split("/")[-1]
    for k in caught:
        res.count("continuing_handlers")
        if any(m == base and k == x and c in calls for m, x, c, _ in FALLBACKS):
            res.count("reviewed_fallbacks")
            continue
        sw = {e for e in raised if k in supers(p, e)} - ({"NotFittedError"} if calls <= PREDICATES else set())
        if k not in LOOKUP and calls:
            add("handler", h, f"the handler 'except {k}' continues normally: every error of class {k} raised by "
                              f"{', '.join(sorted(calls)[:4])} is lost", f"{k}:{','.join(sorted(calls)[:3])}")
        elif sw:
            by = sorted(set().union(*(raised[e] for e in sw)))
            add("handler", h, f"the handler 'except {k}' continues normally: the error {', '.join(sorted(sw))} raised on purpose by "
                              f"{', '.join(by[:4])} is lost", f"{k}:{','.join(by[:3])}")


def analyse(p):
    res = Result()
    R = Raises(p)
    for m in p.modules.values():
        scan(res, p, R, m, m.rel, m.tree)
        for c in ast.walk(m.tree):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                res.count("functions")
                owner = next((f"{k.name}.{c.name}" for k in m.classes.values() if any(x is c for x in ast.walk(k.node))), c.name)
                scan(res, p, R, m, owner, c)
            elif isinstance(c, ast.ClassDef):
                scan(res, p, R, m, c.name, c)
    return res


def run(ctx):
    return analyse(ctx.p)


SRC = """
import numpy as np
from sklearn.exceptions import NotFittedError
from sklearn.utils.validation import check_is_fitted
def a(x):
    if x < 0:
        ValueError("x")
def b(x):
    if x < 0:
        err = ValueError("x")
    return x
def c(x):
    x == 1
    return x
def d(x):
    assert (x > 0, "positive")
def e(x):
    try:
        return np.linalg.solve(x, x)
    except Exception:
        return None
def chk(x):
    if x < 0:
        raise KeyError(x)
def f(x):
    try:
        chk(x)
    except KeyError:
        pass
def ok1(x):
    err = ValueError("x")
    if x < 0:
        raise err
    "no-op"
    x
def ok2(x):
    try:
        return x.dt
    except AttributeError:
        return None
def ok3(x):
    try:
        check_is_fitted(x)
    except NotFittedError:
        return False
    return True
def die(m):
    raise ValueError(m)
def ok4(x):
    try:
        return np.linalg.inv(x)
    except Exception as e:
        if x is None:
            raise
        else:
            die("x")
def g(x):
    try:
        return chk(x)
    finally:
        return 1
"""


def selftest(ctx):
    from ..testkit import tiny
    p, _ = tiny(SRC)
    bad = {f.key.split("|")[1] for f in analyse(p).findings.values()}
    return {n: (n in bad) == (not n.startswith(("ok", "chk", "die"))) for n in ("a", "b", "c", "d", "e", "f", "g", "ok1", "ok2", "ok3", "ok4", "chk", "die")}
