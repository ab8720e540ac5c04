"""The library keeps to itself.

Every function and method of the package (public, private, nested in calls, import-time statements) is interpreted. Calls
with an effect outside the memory of the process - printing, logging, opening or writing files, creating directories,
starting processes or threads, network access, showing windows, ending the interpreter, evaluating generated code - are
violations (as is entering the timing context of scikit-learn with a message that is always a string), unless the call is control dependent on an option or argument named verbose, or it is the documented purpose of
the function (table ALLOWED).
"""
import ast
from ..core import Finding, Result
from ..project import FuncInfo, dotted
from .. import entry as E
from . import common as C

RULE = "every call with an effect outside the process memory is control dependent on a verbosity option or the documented purpose of the function"
ASSUMPTIONS = ["the tables EFFECTS and METHODS list the effectful routines of the used libraries", "user supplied callables are not analysed"]
MINIMUM = {"functions": 350, "calls_examined": 6000, "external_effects": 5}

EFFECTS = {
    "builtins.print": "prints", "print": "prints", "builtins.open": "opens a file", "open": "opens a file", "builtins.input": "waits for input",
    "input": "waits for input", "builtins.exec": "executes generated code", "exec": "executes generated code", "builtins.eval": "executes generated code",
    "eval": "executes generated code", "builtins.breakpoint": "stops in a debugger", "breakpoint": "stops in a debugger", "pdb.set_trace": "stops in a debugger",
    "sys.exit": "ends the interpreter", "builtins.exit": "ends the interpreter", "builtins.quit": "ends the interpreter", "exit": "ends the interpreter",
    "quit": "ends the interpreter", "os._exit": "ends the interpreter", "os.abort": "ends the interpreter", "os.kill": "sends a signal",
    "sys.stdout.write": "prints", "sys.stderr.write": "prints", "pprint.pprint": "prints", "traceback.print_exc": "prints",
    "os.system": "starts a process", "os.popen": "starts a process", "os.fork": "starts a process", "os.open": "opens a file",
    "os.remove": "deletes a file", "os.unlink": "deletes a file", "os.rename": "renames a file", "os.replace": "renames a file", "os.rmdir": "deletes a directory",
    "os.mkdir": "creates a directory", "os.makedirs": "creates a directory", "os.chmod": "changes a file", "os.symlink": "creates a file",
    "matplotlib.pyplot.show": "shows a window", "matplotlib.pyplot.savefig": "writes a file", "matplotlib.pyplot.close": "closes figures",
    "matplotlib.pyplot.pause": "shows a window", "numpy.save": "writes a file", "numpy.savez": "writes a file",
    "numpy.savez_compressed": "writes a file", "numpy.savetxt": "writes a file", "numpy.memmap": "opens a file", "numpy.load": "reads a file",
    "numpy.fromfile": "reads a file", "pickle.dump": "writes a file", "pickle.load": "reads a file", "joblib.dump": "writes a file", "joblib.load": "reads a file",
    "torch.save": "writes a file", "torch.load": "reads a file", "json.dump": "writes a file", "time.sleep": "waits", "webbrowser.open": "opens a browser",
    "scipy.io.savemat": "writes a file", "scipy.sparse.save_npz": "writes a file", "threading.Thread": "starts a thread",
    "pandas.read_csv": "reads a file", "pandas.read_pickle": "reads a file", "pandas.read_excel": "reads a file", "pandas.HDFStore": "opens a file",
}
PREFIX = {"subprocess.": "starts a process", "shutil.": "changes files", "socket.": "uses the network", "urllib.": "uses the network",
          "requests.": "uses the network", "http.": "uses the network", "ftplib.": "uses the network", "smtplib.": "uses the network", "multiprocessing.": "starts a process",
          "concurrent.": "starts a process", "atexit.": "registers an exit handler", "signal.": "changes a signal handler", "ctypes.": "loads a library",
          "os.environ.": "changes the environment", "os.putenv": "changes the environment", "os.chdir": "changes the working directory",
          "gc.": "changes the garbage collector", "matplotlib.pyplot.": "draws a figure", "tempfile.": "creates a file", "logging.": "writes a log"}
METHODS = {"to_csv": "writes a file", "to_pickle": "writes a file", "to_hdf": "writes a file", "to_excel": "writes a file", "to_parquet": "writes a file",
           "to_feather": "writes a file", "to_json": "writes a file", "to_sql": "writes to a database", "tofile": "writes a file", "savefig": "writes a file",
           "write_text": "writes a file", "write_bytes": "writes a file", "to_clipboard": "changes the clipboard", "info": "prints"}
VERBOSE = ("verbose", "disp", "show_progress", "progress", "progress_bar", "print_time", "iprint", "with_tqdm")  # numpy-style reporting options
READS = {"logging.getLogger", "logging.NullHandler", "os.environ.get", "os.environ.copy", "os.environ.keys", "os.environ.items", "gc.collect", "gc.get_objects", "multiprocessing.cpu_count"}
# (function, effect) that is the documented purpose
ALLOWED = {
    ("TSCDataFrame.to_csv", "to_csv"): "documented export",
    ("TSCDataFrame.from_csv", "pandas.read_csv"): "documented import",
    ("show_versions", "print"): "documented report", ("print_versions", "print"): "documented report",
    ("MultiScaleGeometricHarmonicsInterpolator._multi_scale_optimize", "print"): "unfinished class, the constructor raises NotImplementedError",
    ("MultiScaleGeometricHarmonicsInterpolator.auto_adjust", "print"): "unfinished class, the constructor raises NotImplementedError",
}
ENDS = {"SystemExit", "KeyboardInterrupt", "GeneratorExit"}
SKIPMOD = ("datafold._version", "datafold._decorators", "datafold.utils.plot", "datafold._vendor")


def effect(target):
    if target in EFFECTS:
        return EFFECTS[target]
    if target in READS:
        return None
    for p, t in PREFIX.items():
        if target.startswith(p):
            return t
    return None


def asked(name):
    """a name of an option that asks for output"""
    n = str(name).lower()
    return "verb" in n or "tqdm" in n or "progress" in n


def truthy(e):
    return isinstance(e, ast.Constant) and (e.value is True or isinstance(e.value, (int, float)) and e.value > 0)


def reporting(node):
    """the reporting option that the call switches on unconditionally"""
    for k in node.keywords:
        if k.arg in VERBOSE and truthy(k.value):
            return k.arg
        if isinstance(k.value, ast.Dict):
            for a, b in zip(k.value.keys, k.value.values):
                if isinstance(a, ast.Constant) and a.value in VERBOSE and truthy(b):
                    return a.value
        if isinstance(k.value, ast.Call) and dotted(k.value.func) == "dict":
            for a in k.value.keywords:
                if a.arg in VERBOSE and truthy(a.value):
                    return a.arg


class Hook:
    def __init__(self, res):
        self.res = res

    def on_raise_(self, it, node, val, state):
        e = node.exc.func if isinstance(node.exc, ast.Call) else node.exc
        d = dotted(e) if e is not None else None
        if d in ENDS:
            fn = it.frame.func
            self.res.add(Finding(f"effect|{fn.short}|{d}", f"{fn.short} ends the interpreter (raises {d})", C.where(it, node), "P17-external-effect", C.chain(it)))

    def on_call(self, it, target, node, args, kwargs, state, fv=None, **k):
        self.res.count("calls_examined")
        if isinstance(node, ast.Call) and "sklearn" not in str(target if isinstance(target, str) else "") and reporting(node):
            self.found(it, node, state, "prints", f"{ast.unparse(node.func)}({reporting(node)}=...)")
        if isinstance(target, FuncInfo):
            return
        t = target if isinstance(target, str) else None
        e, name = (effect(t), t) if t else (None, None)
        if e is None and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in METHODS:
            e, name = METHODS[node.func.attr], node.func.attr
        if e is None and isinstance(node, ast.Call):
            d = dotted(node.func)
            if d:
                h, _, r = d.partition(".")
                name = it.frame.func.module.imports.get(h, h) + ("." + r if r else "")
                if h not in state.env:
                    e = effect(name)
        if t and t.endswith("._print_elapsed_time"):
            # silent for the message None only
            msg = args[1] if len(args) > 1 else kwargs.get("message")
            if msg is not None and msg.types == {"str"} and not any(asked(x[1]) for x in msg.deps):
                e, name = "prints", t
        if t and t.split(".")[0] == "tqdm" and t.split(".")[-1] in ("tqdm", "trange", "auto", "tqdm_notebook") and not (
                kwargs.get("disable") is not None and (kwargs["disable"].const is None or True in kwargs["disable"].const)):
            e, name = "prints", t
        if e is None:
            return
        self.found(it, node, state, e, name)

    def found(self, it, node, state, e, name):
        self.res.count("external_effects")
        name = name.replace("builtins.", "")
        fn = it.frame.func
        if any((f.short, name) in ALLOWED for f in it.chain()):
            return
        if e == "draws a figure" and any(w in f.short.lower() for w in ("plot", "animate") for f in it.chain()):
            return
        if any(x[0] in ("attr", "param") and asked(x[1]) for x in state.pc):
            return
        if any(isinstance(n, (ast.If, ast.IfExp)) and any(asked(getattr(x, "attr", getattr(x, "id", ""))) for x in ast.walk(n.test))
               and any(x is node for b in ast.iter_child_nodes(n) if b is not n.test for x in ast.walk(b)) for n in ast.walk(fn.node)):
            return  # the verbosity is passed on through a library call
        self.res.add(Finding(f"effect|{fn.short}|{name}".replace(" ", "_"), f"{fn.short} {e} ({name}) without being asked to",
                             C.where(it, node), "P17-external-effect", C.chain(it)))


def environ(f, res):
    """assignments to and deletions from os.environ"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            d = dotted(n.value) or ""
            h, _, r = d.partition(".")
            if f.module.imports.get(h, h) + ("." + r if r else "") == "os.environ":
                res.add(Finding(f"effect|{f.short}|os.environ", f"{f.short} changes the environment of the process",
                                f"{f.module.rel}:{n.lineno}", "P17-external-effect", [f.short]))


def one(ctx, item):
    c, f = item
    res = Result()
    environ(f, res)
    res.count("functions")
    it = E.run_entry(ctx.p, ctx.lib, f, c, [Hook(res)])[0]
    res.cov["reached"] = {x.qual for x in it.visited}
    return res


def syntactic(m, res):
    """statements executed by importing the module"""
    def top(stmts):
        for st in stmts:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) or isinstance(st, ast.If) and "__main__" in ast.unparse(st.test):
                continue
            if isinstance(st, ast.ClassDef):
                top(st.body)
                continue
            res.count("import_time_statements")
            for n in ast.walk(st):
                d = dotted(n.func) if isinstance(n, ast.Call) else None
                if d:
                    h, _, t = d.partition(".")
                    r = m.imports.get(h, h) + ("." + t if t else "")
                    if effect(r):
                        res.add(Finding(f"import|{m.name}|{r}", f"importing {m.name} {effect(r)} ({r})", f"{m.rel}:{n.lineno}", "P17-import-effect"))
    top(m.tree.body)


def items(ctx):
    return [(f.cls, f) for f in ctx.p.all_functions() if f.name != "__init_subclass__" and not f.module.name.startswith(SKIPMOD)]


def run(ctx):
    its = sorted(items(ctx), key=lambda e: 0 if e[0] is not None and e[0].name.startswith("EDMD") else 1)
    public = [i for i in its if not i[1].name.startswith("_") or i[1].name.startswith("__")]
    res = ctx.pmap(one, public)
    # private functions that are called by the library in a way the interpreter does not see (callbacks)
    res.merge(ctx.pmap(one, [i for i in its if i not in public and i[1].qual not in res.cov["reached"]]))
    res.cov["functions_reached"] = len(res.cov.pop("reached"))
    for m in ctx.p.modules.values():
        if not m.name.startswith(SKIPMOD):
            syntactic(m, res)
    return res


SRC = """
import os
import sys
import tqdm
import qpsolvers as sp2
from scipy.optimize import minimize
import numpy as np
import subprocess as sp
from sklearn.utils import _print_elapsed_time
def log(msg):
    print(msg)
class A:
    def m1(self, X):
        print(X)
    def m2(self, X):
        if self.verbose > 1:
            print(X)
    def m3(self, X, verbose=False):
        if not verbose:
            return X
        log(X)
        return X
    def m4(self, X):
        log(X)
    def m5(self, X):
        with open("cache", "wb") as f:
            np.save(f, X)
    def m6(self, X):
        sp.run(["ls"])
    def m7(self, X):
        X.to_csv("a")
    def m8(self, X):
        if X.shape[0] == 1:
            sys.stdout.write("one")
    def m9(self, X):
        return os.path.join("a", "b"), np.asarray(X)
    def m11(self, X):
        os.environ["OMP_NUM_THREADS"] = "1"
        return X
    def m12(self, X):
        return os.environ.get("A", X)
    def m13(self, X):
        with _print_elapsed_time("A", f"{X}"):
            return X
    def m14(self, X):
        with _print_elapsed_time("A", self._log_message(X)):
            return X
    def m15(self, X):
        msg = f"{X}" if self.verbose else None
        with _print_elapsed_time("A", msg):
            return X
    def m16(self, X):
        return sp2.solve_qp(X, verbose=True)
    def m17(self, X):
        return sp2.solve_qp(X, verbose=self.verbose)
    def m18(self, X):
        return minimize(X, options={"disp": True})
    def m19(self, X):
        raise SystemExit("x")
    def m20(self, X, with_tqdm=True):
        it = tqdm.tqdm(X) if with_tqdm else X
        return [i for i in it]
    def m21(self, X):
        return [i for i in tqdm.tqdm(X)]
    def m10(self, X):
        eval = self.kernel
        return eval(X)
"""


def selftest(ctx):
    from ..testkit import tiny
    p, lib = tiny(SRC)
    c = p.cls("A")
    ok = {"m2", "m3", "m9", "m10", "m12", "m14", "m15", "m17", "m20"}
    out = {}
    for m in c.methods:
        r = Result()
        environ(c.methods[m], r)
        E.run_entry(p, lib, c.methods[m], c, [Hook(r)])
        out[m] = bool(r.findings) != (m in ok)
    return out
