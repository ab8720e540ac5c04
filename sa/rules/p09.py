"""Input data are checked before they are used.

Every fit and apply method is interpreted once per supported container type of its data argument. Guards (a branch
whose one side always raises) and the checking routines of scikit-learn and numpy.testing leave must-facts about the
argument: its values were tested for being finite; its features were compared with those of the fit. At every normal
exit of the method the facts must hold.
"""
import ast
from ..core import Finding, Result
from ..project import FuncInfo
from ..interp import Val, EMPTY, const
from .. import entry as E
from . import common as C

RULE = ("on every path to a normal exit: the data argument was tested for finite values; in apply methods its feature number/names "
        "were compared with those recorded by fit")
ASSUMPTIONS = ["scikit-learn's check_array/_check_n_features/_check_feature_names raise as documented"]
MINIMUM = {"obligations": 200, "entry_runs": 200}

FINITE = {"fit", "fit_transform", "transform", "predict"}
APPLY = {"transform", "inverse_transform", "predict"}
NAMES = {"transform", "predict", "inverse_transform"}
UNFINISHED = {"MultiScaleGeometricHarmonicsInterpolator": "documented as work in progress, fit calls a method that does not exist (see P12)"}
ROLES = {"fit", "fit_transform", "transform", "predict", "inverse_transform"}
# the whole input is handed to the parts of the model, which check it themselves
DELEGATES = {("EDMD", "transform"): "the steps of the dictionary", ("HAVOK", "transform"): "experimental",
             ("EDMDCV", "fit"): "the fit of the EDMD model of every fold"}
FEATURES = {"n_features_in_", "feature_names_in_", "n_features_out_", "n_features_out", "feature_names_out_", "_feature_names_pred",
            "features_out_", "X_fit_", "landmarks_", "_base_estimator", "steps"}
TYPES = ("TSCDataFrame", "frame", "ndarray")


class Hook:
    def __init__(self, x, inverse=False):
        self.x = x
        self.inverse = inverse  # the names of the output are computed from any attribute

    def param(self, v):
        return v is not None and ("param", self.x) in v.deps

    def of_fit(self, deps):
        return any(d[0] in ("attr", "via") and d[1] in FEATURES for d in deps) or self.inverse and ("via", "columns") in deps and any(
            d[0] == "attr" for d in deps)

    def on_guard(self, it, node, deps, state):
        if ("param", self.x) not in deps:
            return
        if ("via", "finite") in deps:
            state.facts |= {("finite",)}
        if ("via", "columns") in deps or ("via", "shape") in deps:
            if self.of_fit(deps):
                state.facts |= {("features",), ("names",)} if ("via", "columns") in deps else {("features",)}

    def on_call(self, it, target, node, args, kwargs, state, **k):
        if isinstance(node.func, ast.Attribute) and node.func.attr in ROLES and not isinstance(target, FuncInfo):
            # part of the model (or the scikit-learn base class), which checks the data it is given
            a = args[0] if args else kwargs.get("X")
            if self.param(a):
                state.facts |= {("finite",)}
                if ("P", self.x, "") in a.ident or any(("P", self.x) == l[:2] for l in a.ident):
                    state.facts |= {("features",), ("names",)}
        if not isinstance(target, str):
            return
        last = target.split(".")[-1]
        if last in ("check_array", "check_X_y", "as_float_array"):
            a = args[0] if args else kwargs.get("X", kwargs.get("array"))
            fin = kwargs.get("force_all_finite", kwargs.get("ensure_all_finite"))
            if self.param(a) and (fin is None or it.lib.truth(fin) is True and fin.const == frozenset([True])):
                state.facts |= {("finite",)}
        elif last in ("_validate_data",):
            a = args[0] if args else kwargs.get("X")
            fin = kwargs.get("force_all_finite")
            if self.param(a) and (fin is None or fin.const == frozenset([True])):
                state.facts |= {("finite",)}
            if self.param(a) and kwargs.get("reset") is not None and it.lib.truth(kwargs["reset"]) is False:
                state.facts |= {("features",), ("names",)}
        elif last in ("_check_n_features", "_check_feature_names"):
            a = args[0] if args else kwargs.get("X")
            r = kwargs.get("reset", args[1] if len(args) > 1 else None)
            if self.param(a) and r is not None and it.lib.truth(r) is False:
                state.facts |= {("features",), ("names",)} if last == "_check_feature_names" else {("features",)}
        elif last.startswith("assert_") and "testing" in target:
            d = EMPTY
            for a in list(args[:2]):
                d |= a.deps
            if ("param", self.x) in d and self.of_fit(d):
                state.facts |= {("features",), ("names",)} if ("via", "columns") in d else {("features",)}


def variants(x, p):
    for t in TYPES:
        ty = p.cls(t) if t == "TSCDataFrame" else t
        yield t, Val(ident=frozenset([("P", x, "")]), deps=frozenset([("param", x)]), types=frozenset([ty]),
                     tags=frozenset(["!exact", "!notnone"]))


def data_param(f):
    ps = [n for n in f.user_params]
    return ps[0] if ps and ps[0] in ("X", "x", "initial_conditions") else None


def features_role(p, c, m):
    return m in APPLY and (p.is_sub(c, "TSCTransformerMixin") or p.is_sub(c, "TSCPredictMixin"))


def one(ctx, item):
    cn, m = item
    p, c = ctx.p, ctx.cls(cn)
    res = Result()
    f = E.public_methods(p, c)[m]
    x = data_param(f)
    n = f"{cn}.{m}"
    heap = {(E.SELF, "has:" + a): const(True) for a in C.state_attrs(p, c)} if m in APPLY else None
    need = [k for k, on in (("finite", m in FINITE), ("features", features_role(p, c, m)),
                        ("names", m in NAMES and features_role(p, c, m))) if on]
    for t, v in variants(x, p):
        it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [Hook(x, m == "inverse_transform")], overrides={x: v}, meta=True, heap=heap)
        res.count("entry_runs")
        if rs is None:
            res.count("refused_types")
            continue
        for k in need:
            if k == "names" and t == "ndarray":
                continue
            res.count("obligations")
            if (k,) not in rs.facts:
                what = {"finite": f"a path through {n} uses the values of '{x}' ({t}) without testing that they are finite",
                        "features": f"a path through {n} does not compare the features of '{x}' ({t}) with those of the fit",
                        "names": f"a path through {n} does not compare the feature names of '{x}' ({t}) with those of the fit"}[k]
                res.add(Finding(f"{k}|{n}|{t}", what, f"{f.module.rel}:{f.node.lineno}", "P09-" + k, [f.short]))
    return res


def experimental(p, c):
    """the class announces itself as experimental in its constructor"""
    f = C.init_of(p, c)
    return f is not None and any(isinstance(x, ast.Name) and x.id == "warn_experimental_class" for x in ast.walk(f.node))


def items(ctx):
    out, p = [], ctx.p
    for c in ctx.public_classes(exclude=set(C.EXPERIMENTAL) | set(C.SOLVER)):
        if not C.has_params(p, c) or C.is_kernel(p, c) or experimental(p, c):
            continue
        ms = E.public_methods(p, c, extra=("__init__",))
        fit = p.find_method(c, "fit")
        if fit is None or isinstance(fit, FuncInfo) and fit.abstract or c.name in UNFINISHED:
            continue
        for m, f in ms.items():
            if f.abstract or f.is_property or not (m in FINITE or features_role(p, c, m)) or data_param(f) is None:
                continue
            if (c.name, m) in DELEGATES:
                continue
            out.append((c.name, m))
    return out


def run(ctx):
    return ctx.pmap(one, items(ctx))


SRC = """
import numpy as np
from sklearn.base import BaseEstimator
from sklearn.utils.validation import check_array
class TSCTransformerMixin: pass
class TSCDataFrame: pass
class A(BaseEstimator, TSCTransformerMixin):
    def fit(self, X, y=None):
        X = check_array(X)
        self.n_features_in_ = X.shape[1]
        return self
    def transform(self, X):
        X = check_array(X)
        return X * 2
class B(A):
    def _ok(self, X):
        check_array(X)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("features")
        if hasattr(X, "columns") and list(X.columns) != list(self.feature_names_in_):
            raise ValueError("names")
        return X
    def transform(self, X):
        return self._ok(X) * 2
class D(B):
    def transform(self, X):
        if len(X) > 1:
            X = self._ok(X)
        return X * 2
class F(B):
    def _ok(self, X):
        X = check_array(X, force_all_finite=False)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("features")
        return X
class G(B):
    def _ok(self, X):
        if not np.all(np.isfinite(X)):
            raise ValueError("nan")
        self._check_n_features(X, reset=False)
        self._check_feature_names(X, reset=False)
        return X
class I(B):
    def _ok(self, X):
        X = check_array(X)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("features")
        return X
class H(B):
    def _ok(self, X):
        X = check_array(X)
        if X.shape[1] != self.n_features_in_:
            ValueError("features")
        return X
"""


def selftest(ctx):
    from ..testkit import tiny
    from ..core import Ctx
    t = Ctx.__new__(Ctx)
    t.p, t.lib = tiny(SRC)
    return {c: bool(one(t, (c, "transform")).findings) == bad
            for c, bad in (("A", True), ("B", False), ("D", True), ("F", True), ("G", False), ("H", True), ("I", True))}
