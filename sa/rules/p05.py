"""No state outside the objects.

Every function and method of the package (public, private, import-time code) is interpreted; a violation is
any write effect on something that outlives and is shared beyond the object at hand: module globals, class
attributes, class objects, modules and registries of other packages, default-argument objects, and the
process-wide settings of Python, numpy, pandas, warnings, matplotlib, scikit-learn.
"""
import ast
from ..core import Finding, Result
from ..project import FuncInfo, ClassInfo, Module, dotted
from .. import entry as E
from . import common as C

RULE = ("no write effect on module globals, class attributes, class/module objects, default-argument objects or "
        "process-wide settings")
ASSUMPTIONS = ["library calls behave as modelled in sa/lib.py; the table SETTERS lists the process-wide setters"]
MINIMUM = {"functions": 500, "effects_examined": 2500, "calls_examined": 6000}

SETTERS = {
    "numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "numpy.set_printoptions", "numpy.random.seed",
    "numpy.random.set_state", "random.seed", "random.setstate", "warnings.simplefilter", "warnings.filterwarnings",
    "warnings.resetwarnings", "pandas.set_option", "pandas.reset_option", "os.chdir", "os.putenv", "os.umask", "os.unsetenv",
    "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.setswitchinterval", "logging.basicConfig",
    "logging.disable", "matplotlib.rc", "matplotlib.use", "matplotlib.pyplot.rc", "matplotlib.style.use",
    "matplotlib.pyplot.style.use", "matplotlib.pyplot.rcdefaults", "sklearn.set_config", "locale.setlocale",
    "torch.manual_seed", "torch.set_default_dtype", "torch.set_default_tensor_type", "torch.set_num_threads",
    "gc.disable", "gc.enable", "signal.signal", "atexit.register", "multiprocessing.set_start_method",
    "builtins.globals", "numpy.set_string_function", "socket.setdefaulttimeout",
    "pandas.plotting.register_matplotlib_converters", "pandas.options.mode.chained_assignment",
}
WARNINGS = {"warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings"}
CACHES = {"functools.lru_cache", "functools.cache", "lru_cache", "cache", "functools.lru_cache(maxsize=None)"}


def caught(func, node):
    """inside `with warnings.catch_warnings()` (settings restored at exit)"""
    for w in ast.walk(func):
        if isinstance(w, ast.With) and any("catch_warnings" in ast.unparse(i.context_expr) for i in w.items):
            if any(x is node for b in w.body for x in ast.walk(b)):
                return True
    return False


def shared(l):
    r = l
    while r[0] == "A":
        r = r[1]
    return r if r[0] in ("G", "CA", "C", "D") else None


def text(l):
    return {"G": "module variable", "CA": "class attribute", "C": "class", "D": "default argument object"}[l[0]] + " " + ".".join(map(str, l[1:]))


def mutable_default(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call))


class Hook:
    def __init__(self, res, f):
        self.res, self.f = res, f

    def add(self, it, what, node, how):
        fn = it.frame.func
        self.res.add(Finding(f"global|{fn.short}|{what}".replace(" ", "_"), f"{fn.short} changes {what} ({how})",
                             C.where(it, node), "P05-shared-state", C.chain(it)))

    def on_mutate(self, it, val, how, node, state, **k):
        self.res.count("effects_examined")
        for l in val.mem:
            s = shared(l)
            if s is not None:
                self.add(it, text(s), node, how)
            elif l[0] == "P" and l[1] in self.f.defaults and mutable_default(self.f.defaults[l[1]]) and "equal" not in how:
                self.add(it, f"the default object of parameter '{l[1]}' of {self.f.short}", node, how)
        for x in val.fn:
            if isinstance(x, str) and x.startswith("lib:") and not x.startswith("lib:builtins"):
                self.add(it, f"the object {x[4:]} of another package", node, how)

    def on_setattr(self, it, base, attr, val, node, state, prop):
        self.res.count("effects_examined")
        if prop is not None:
            return
        for l in base.ident:
            s = shared(l)
            if s is not None:
                self.add(it, f"{text(s)}.{attr}", node, "sets an attribute")
                return
        for x in base.fn:
            if isinstance(x, (ClassInfo, Module)):
                self.add(it, f"{x.name}.{attr}", node, "sets an attribute of a class/module")
            elif isinstance(x, FuncInfo) or getattr(x, "func", None) is not None and isinstance(getattr(x, "func"), FuncInfo):
                if getattr(getattr(x, "func", x), "outer", None) is None:
                    self.add(it, f"function attribute {attr}", node, "sets an attribute of a function")
            elif isinstance(x, str):
                self.add(it, f"{x[4:]}.{attr} of another package", node, "sets an attribute")
        if base.types == frozenset(["type"]) and not base.fn and not base.ident:
            self.add(it, f"a class attribute {attr}", node, "sets an attribute of type(...)")

    def on_delattr(self, it, base, attr, node, state):
        for x in base.fn:
            if isinstance(x, (ClassInfo, Module)):
                self.add(it, f"{x.name}.{attr}", node, "deletes an attribute of a class/module")

    def on_call(self, it, target, node, **k):
        self.res.count("calls_examined")
        if isinstance(target, str) and target in SETTERS:
            if target in WARNINGS and any(caught(fr.func.node, fr2) for fr, fr2 in frames(it, node)):
                return
            self.add(it, f"process-wide setting {target}", node, "call")


def frames(it, node):
    out, n = [], node
    for fr in reversed(it.stack):
        out.append((fr, n))
        n = fr.node
    return out


def one(ctx, item):
    c, f = item
    res = Result()
    res.count("functions")
    E.run_entry(ctx.p, ctx.lib, f, c, [Hook(res, f)])
    for d in f.decorators:
        if d.split("(")[0] in CACHES:
            res.add(Finding(f"global|{f.short}|{d}", f"{f.short} keeps its results in a process-wide cache ({d})",
                            f.loc(), "P05-shared-state"))
    return res


def walk(st):
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        return
    yield st
    for x in ast.iter_child_nodes(st):
        yield from walk(x)


def syntactic(m, res):
    """global statements and import-time effects"""
    for fn in ast.walk(m.tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for n in ast.walk(fn):
                if isinstance(n, ast.Global):
                    stored = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
                    for g in sorted(set(n.names) & stored):
                        res.add(Finding(f"global|{fn.name}|{g}", f"{fn.name} rebinds the module variable '{g}'",
                                        f"{m.rel}:{n.lineno}", "P05-shared-state"))

    def top(stmts):
        for st in stmts:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(st, ast.If) and "__main__" in ast.unparse(st.test):
                continue
            if isinstance(st, ast.ClassDef):
                top(st.body)
                continue
            res.count("import_time_statements")
            for n in walk(st):
                if isinstance(n, ast.Call):
                    d = dotted(n.func)
                    r = None
                    if d:
                        h, _, t = d.partition(".")
                        r = m.imports.get(h, h) + ("." + t if t else "")
                    if r in SETTERS:
                        res.add(Finding(f"import|{m.name}|{r}", f"importing {m.name} changes the process-wide setting {r}",
                                        f"{m.rel}:{n.lineno}", "P05-import-effect"))
                elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    while isinstance(b, (ast.Attribute, ast.Subscript)):
                        b = b.value
                    if isinstance(b, ast.Name) and b.id in m.imports and not m.imports[b.id].startswith("datafold"):
                        res.add(Finding(f"import|{m.name}|{ast.unparse(n)}", f"importing {m.name} changes {ast.unparse(n)} of another package",
                                        f"{m.rel}:{n.lineno}", "P05-import-effect"))
    top(m.tree.body)


def items(ctx):
    out = []
    for f in ctx.p.all_functions():
        if f.name == "__init_subclass__":
            continue
        out.append((f.cls, f))
    return out


def run(ctx):
    its = items(ctx)
    its.sort(key=lambda e: 0 if e[0] is not None and e[0].name.startswith("EDMD") else 1)
    res = ctx.pmap(one, its)
    for m in ctx.p.modules.values():
        syntactic(m, res)
    return res


SRC = """
import numpy as np
import warnings
import os
CACHE = {}
TABLE = [1, 2]
N = 0
class A:
    options = []
    names = ("a",)
    def m1(self, x):
        self.options.append(x)
    def m2(self, x):
        type(self).n = x
    def m3(self, x):
        A.n = x
    def m4(self, x):
        self.options = [x]
        self.options.append(x)
    def m5(self, x, acc=[]):
        acc.append(x)
        return acc
    def m6(self, x, acc=None):
        acc = [] if acc is None else acc
        acc.append(x)
        return acc
    def m7(self, x):
        return list(TABLE) + [x]
    def m8(self, x):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return np.sqrt(x)
    def m9(self, x):
        warnings.simplefilter("ignore")
        return np.sqrt(x)
    def m10(self, x):
        t = TABLE
        t.append(x)
    def m11(self, x):
        os.environ["X"] = "1"
    def m12(self, x):
        old = np.seterr(all="ignore")
        return x
    def m13(self, x):
        return helper(x)
    def m14(self, x):
        self.__class__.n = x
def helper(x, acc={}):
    acc[1] = x
    return acc
"""


def selftest(ctx):
    from ..testkit import tiny
    p, lib = tiny(SRC)
    c = p.cls("A")
    out = {}
    bad = {"m1", "m2", "m3", "m5", "m9", "m10", "m11", "m12", "m13", "m14"}
    for m in c.methods:
        r = Result()
        E.run_entry(p, lib, c.methods[m], c, [Hook(r, c.methods[m])])
        out[m] = bool(r.findings) == (m in bad)
    return out
