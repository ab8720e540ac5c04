"""Results keep the container and the row labels.

Transform, inverse transform and their fit variants of every transformer are interpreted once per container type of the
data; predict, reconstruct and fit_predict of every model as well. Obligations:
(1) every value that a return statement of the operation yields is of the container type of the data (a prediction is a
time series collection),
(2) every frame or collection that is constructed on the way from an array receives explicit row labels.
"""
import ast
from ..core import Finding, Result
from ..project import ClassInfo, FuncInfo
from .. import entry as E
from . import common as C
from . import p07, p09

RULE = "per container type: the inferred types of all returned values, and the labels given to every constructed frame"
ASSUMPTIONS = ["type inference of library calls in sa/lib.py; values of unknown type are no violation"]
SYSTEMS = False  # their predict returns the states together with the control input
MINIMUM = {"operations": 100, "typed_returns": 80, "frames_constructed": 30}
TRANSFORM = ("transform", "inverse_transform", "fit_transform", "partial_fit_transform")
PREDICT = ("predict", "reconstruct", "fit_predict")
CONTAINER = {"TSCDataFrame", "frame", "ndarray", "spmatrix", "series", "list", "tuple", "dict", "Series", "NoneType"}
ALLOWED = {"TSCDataFrame": {"TSCDataFrame"}, "frame": {"TSCDataFrame", "frame"}, "ndarray": {"ndarray"}}
# (class, operation): container types that the documentation allows in addition
EXTRA = {("DiffusionMaps", "transform"): {"frame"}}  # the kernel matrix, which may be a frame, decides about the row labels


def name(t):
    return t.name if isinstance(t, ClassInfo) else t


class Hook:
    def __init__(self, res, cn, m, x, kind, allowed):
        self.res, self.cn, self.m, self.x, self.kind, self.allowed = res, cn, m, x, kind, allowed

    def on_return_(self, it, func, val, node, state):
        if len(it.stack) != 1 or node is None or node.value is None:
            return
        ts = {name(t) for t in val.types}
        if not ts:
            self.res.count("untyped_returns")
            return
        self.res.count("typed_returns")
        bad = (ts & CONTAINER) - self.allowed
        if bad:
            self.res.add(Finding(f"container|{self.cn}.{self.m}|{self.kind}|{'+'.join(sorted(bad))}",
                                 f"{self.cn}.{self.m} returns {' or '.join(sorted(bad))} for {self.kind} data", C.where(it, node), "P14-container", C.chain(it)))

    def on_call(self, it, target, node, args, kwargs, state, star=None, dstar=None, **k):
        if not isinstance(node, ast.Call):
            return
        t = target.qual if isinstance(target, FuncInfo) else str(target)
        if t.endswith(("TSCDataFrame.__init__", "pandas.DataFrame")):
            data = kwargs.get("data") or (args[0] if args else None)
            labels = kwargs.get("index") or (args[1] if len(args) > 1 else None)
            if data is None or star or dstar or not it.frame.func.module.name.startswith(("datafold.dynfold", "datafold.appfold", "datafold.tiny")):
                return
            self.res.count("frames_constructed")
            if {name(t) for t in data.types} == {"ndarray"} and labels is None:
                self.add(it, node, "labels", "constructs a frame from an array without row labels")

    def add(self, it, node, kind, text):
        w = C.where(it, node)
        self.res.add(Finding(f"{kind}|{self.cn}.{self.m}|{it.frame.func.short}", f"{self.cn}.{self.m} {text} (in {it.frame.func.short})", w,
                             "P14-" + kind, C.chain(it)))


def operations(ctx):
    p = ctx.p
    for c in ctx.public_classes({**C.EXPERIMENTAL, **C.SOLVER}):
        for m, f in E.public_methods(p, c).items():
            if f.abstract or f.kind != "method" or p09.data_param(f) is None:
                continue
            if m in TRANSFORM and p.is_sub(c, "TSCTransformerMixin") or m in PREDICT and p.is_sub(c, "TSCPredictMixin"):
                yield c.name, m


def one(ctx, item):
    cn, m = item
    p, c = ctx.p, ctx.cls(cn)
    res = Result()
    f = E.public_methods(p, c)[m]
    x = p09.data_param(f)
    for kind, v in p09.variants(x, p):
        res.count("operations")
        allowed = ({"TSCDataFrame"} if m in PREDICT else ALLOWED[kind]) | EXTRA.get((cn, m), set())
        E.run_entry(p, ctx.lib, f, c, [Hook(res, cn, m, x, kind, allowed)], overrides={x: v})
    return res


def run(ctx):
    return ctx.pmap(one, sorted(operations(ctx), key=lambda i: p07.heavy(i[0])))


SRC = """
import numpy as np
import pandas as pd
from datafold.pcfold.timeseries import TSCDataFrame
class TSCTransformerMixin: pass
class A(TSCTransformerMixin):
    def m1(self, X):
        return X.to_numpy() if isinstance(X, pd.DataFrame) else np.asarray(X)
    def m2(self, X):
        v = np.asarray(X) * 2
        if isinstance(X, pd.DataFrame):
            return pd.DataFrame(v, columns=X.columns)
        return v
    def m3(self, X):
        v = np.asarray(X) * 2
        if isinstance(X, pd.DataFrame):
            return pd.DataFrame(v, index=X.index, columns=X.columns)
        return v
    def m4(self, X):
        v = np.asarray(X) * 2
        if isinstance(X, pd.DataFrame) and self.flag:
            v = pd.DataFrame(v, index=X.index, columns=X.columns)
        return v
"""


def selftest(ctx):
    from ..testkit import tiny
    p, lib = tiny(SRC)
    c = p.cls("A")
    want = {"m1": {"container"}, "m2": {"labels"}, "m3": set(), "m4": {"container"}}
    out = {}
    from ..interp import Val
    for m, w in want.items():
        r = Result()
        for kind in ("frame", "ndarray"):
            v = Val(ident=frozenset([("P", "X", "")]), deps=frozenset([("param", "X")]), types=frozenset([kind]), tags=frozenset(["!exact", "!notnone"]))
            E.run_entry(p, lib, c.methods[m], c, [Hook(r, "A", m, "X", kind, ALLOWED[kind])], overrides={"X": v})
        out[m] = {k.split("|")[0] for k in r.findings} == w
    return out
