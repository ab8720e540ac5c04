"""Requirements on time series are enforced.

Every operation that needs time series of a certain form is interpreted once per container type of its data argument.
Guards (a branch whose one side always raises) and the assertions of numpy.testing leave must-facts: which property of
the collection (constant time delta, equal time values, number of time steps, ...) decided about the refusal. The facts
needed by the operation must hold at every normal exit; containers without time information must never reach it. The
control input and the requested time values of predictions are treated in the same way.
"""
from ..core import Finding, Result
from ..project import FuncInfo
from ..interp import NAN, Val, EMPTY, const, given
from .. import entry as E
from . import common as C
from .p09 import variants, data_param, experimental

RULE = ("on every path to a normal exit: each required property of the time series was tested by a guard; containers "
        "without time values never reach the exit; control input is given iff the model is controlled")
ASSUMPTIONS = ["predicates of TSCDataFrame (is_const_delta_time, is_same_time_values, delta_time, n_timesteps, ...) compute what their name says",
               "collections contain at least one time series"]
MINIMUM = {"obligations": 120, "refusals": 50}

SAMPLED = ("is_const_delta_time", "delta_time")
SAME = ("is_same_time_values",)
# (base class, method) -> groups of properties, one of each group has to be tested
NEEDS = {
    ("DMDBase", "fit"): [SAMPLED, ("time_values",)],
    ("DMDBase", "partial_fit"): [SAMPLED],
    ("DMDBase", "predict"): [SAME, ("n_timesteps",)],
    ("DMDBase", "reconstruct"): [SAMPLED],
    ("DMDBase", "score"): [SAMPLED],
    ("EDMD", "fit"): [SAMPLED, ("time_values",)],
    ("EDMD", "partial_fit"): [SAMPLED],
    ("EDMD", "predict"): [SAME, ("n_timesteps",)],
    ("EDMD", "reconstruct"): [SAMPLED, ("n_timesteps",)],
    ("EDMD", "score"): [SAMPLED, ("n_timesteps",)],
    ("TSCTakensEmbedding", "fit"): [("is_const_delta_time",), ("n_timesteps",)],
    ("TSCTakensEmbedding", "transform"): [("delta_time",), ("n_timesteps",)],
    ("TSCMovingAverage", "fit"): [SAMPLED],
    ("TSCMovingAverage", "transform"): [SAMPLED],
    ("TSCFiniteDifference", "transform"): [SAMPLED],
    ("FeedforwardNN", "fit"): [SAMPLED],
}
# operations that work on time series only
TSC_ONLY = {("DMDBase", m) for m in ("fit", "partial_fit", "reconstruct", "score")} | \
           {("EDMD", m) for m in ("fit", "partial_fit", "reconstruct", "score")} | \
           {(c, m) for c in ("TSCTakensEmbedding", "TSCMovingAverage", "TSCFiniteDifference", "TSCApplyLambdas")
            for m in ("fit", "transform")} | {("TSCTakensEmbedding", "partial_fit")}
SKIP = {("PretrainedDMD", "fit"): "takes ready-made system matrices",
        }
# the first batch is split by time series ids before it is validated, other containers fail there
SPLIT_FIRST = {("StreamingDMD", "partial_fit")}
# properties of the control input that have to be tested against the initial conditions / the data of the fit
CONTROL = {
    ("DMDControl", "fit"): [("finite", "is_finite"), ("is_df_same_index", "index")],
    ("DMDBase", "predict"): [("finite", "is_finite"), ("columns",), ("ids",), ("time_values+P:X",), SAME],
    ("EDMD", "predict"): [("ids",), ("time_values+P:X",), SAME],
}
# checking routines of their own: function -> parameter -> groups
ROUTINES = {
    "validate_control": {"U": [("ids",), ("time_values+P:X_ic",), SAME]},
    "validate": {"X_ic": [SAME, ("is_finite", "finite"), ("is_equal_length",), ("n_timesteps",)]},
}
TIMES = {("DMDBase", "predict"): [("finite",), ("dtype",), ("P:X",)], ("EDMD", "predict"): [("finite",), ("dtype",), ("P:X",)]}
# what the queries of a collection say that violates the requirement
VIOLATED = {
    SAMPLED: {"is_const_delta_time": False, "delta_time": NAN},
    ("is_const_delta_time",): {"is_const_delta_time": False, "delta_time": NAN},
    ("delta_time",): {"is_const_delta_time": False, "delta_time": NAN},
    SAME: {"is_same_time_values": False},
}
LIMIT = 8  # a guard on a value computed from many sources is no test of one of them


class Hook:
    def __init__(self, x):
        self.x = x

    def label(self, deps, state):
        if ("param", self.x) in deps:
            v = {d[1] for d in deps if d[0] == "via"}
            o = {"P:" + d[1] for d in deps if d[0] == "param" and d[1] != self.x}
            if len(v | o) + len({d[1] for d in deps if d[0] == "attr"} - v) <= LIMIT:
                state.facts |= {("tested", k) for k in v | o} | {("tested", f"{k}+{q}") for k in v for q in o}

    def on_guard(self, it, node, deps, state):
        self.label(deps, state)

    def on_call(self, it, target, node, args, kwargs, state, **k):
        if isinstance(target, str) and target.split(".")[-1].startswith("assert_") and "testing" in target:
            d = EMPTY
            for a in list(args[:2]):
                d |= a.deps
            self.label(d, state)


_FITTED = {}


def fitted(ctx, c):
    """what is known about the attributes of the object after fit: present, and not None where fit assigns such values"""
    if c.qual in _FITTED:
        return _FITTED[c.qual]
    p = ctx.p
    out = {(E.SELF, "has:" + a): const(True) for a in C.state_attrs(p, c)}
    f = E.public_methods(p, c).get("fit")
    x = data_param(f) if f is not None and not f.abstract else None
    if x is not None:
        v = dict(variants(x, p))["TSCDataFrame"]
        it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [], overrides={x: v}, meta=True, nonempty=True)
        for (l, a), v in (rs.heap.items() if rs is not None else ()):
            if l == E.SELF and isinstance(a, str) and a.endswith("_") and given(v):
                out[(l, a)] = Val(ident=frozenset([("A", E.SELF, a)]), types=v.types, deps=frozenset([("attr", a)]),
                                  tags=frozenset(["!notnone"]))
    _FITTED[c.qual] = out
    return out


def lookup(p, c, m, table):
    """entry of the most specific base class"""
    for k in p.mro(c):
        if not isinstance(k, str) and (k.name, m) in table:
            return table[(k.name, m)] if isinstance(table, dict) else True
    return None


def one(ctx, item):
    cn, m = item
    p, c = ctx.p, ctx.cls(cn)
    res = Result()
    f = E.public_methods(p, c)[m]
    x = data_param(f)
    n, where = f"{cn}.{m}", f"{f.module.rel}:{f.node.lineno}"
    vs = dict(variants(x, p))

    def go(hooks, ov, extra=None, **kw):
        heap = dict(fitted(ctx, c)) if m not in ("fit", "partial_fit") else {}
        heap.update(extra or {})
        it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, hooks, overrides=ov, meta=True, heap=heap, nonempty=True, **kw)
        res.count("entry_runs")
        go.used = it.stub_passed
        return rs

    def need(rs, groups, what, key):
        if rs is None:
            return
        for g in groups:
            res.count("obligations")
            if not any(("tested", k) in rs.facts for k in g):
                nm = "/".join(g).replace("P:", "")
                res.add(Finding(f"{key}|{n}|{nm}", f"a path through {n} does not test {what}: {nm}", where, "P10-" + key, [f.short]))
    g = lookup(p, c, m, NEEDS)
    if g:
        need(go([Hook(x)], {x: vs["TSCDataFrame"]}), g, f"a required property of the time series '{x}'", "untested")
        for k in g:
            if k in VIOLATED:
                res.count("violating_runs")
                rs = go([], {x: vs["TSCDataFrame"]}, stubs={("TSCDataFrame", a): const(b) for a, b in VIOLATED[k].items()})
                if rs is not None and go.used:
                    res.add(Finding(f"passes|{n}|{'/'.join(k)}", f"a path through {n} accepts a collection for which "
                                    f"{', '.join(f'{a} is {b}' for a, b in VIOLATED[k].items())}", where, "P10-passes", [f.short]))
    if lookup(p, c, m, TSC_ONLY) and (cn, m) not in SPLIT_FIRST:
        for t in ("frame", "ndarray"):
            res.count("refusals")
            if go([], {x: vs[t]}) is not None:
                res.add(Finding(f"accepts|{n}|{t}", f"{n} does not refuse data without time values ({t})", where, "P10-type", [f.short]))
    if "U" in f.all_params:
        U = dict(variants("U", p))["TSCDataFrame"]
        on = {(E.SELF, k): const(True) for k in ("is_controlled", "is_controlled_")}
        g = lookup(p, c, m, CONTROL)
        if g:
            need(go([Hook("U")], {x: vs["TSCDataFrame"], "U": U}, on), g, "a required property of the control input 'U'", "control")
        if m in ("predict", "reconstruct", "score"):
            off = {(E.SELF, k): const(False) for k in ("is_controlled", "is_controlled_", "has:control_names_in_")}
            for nm, u, h, what in (("missing", const(None), on, "a missing control input of a controlled model"),
                                   ("surplus", U, off, "control input for a model without control")):
                if p.is_sub(c, "EDMD") and m != "predict" and nm == "missing":
                    continue  # left to the DMD model
                res.count("refusals")
                if go([], {x: vs["TSCDataFrame"], "U": u}, h) is not None:
                    res.add(Finding(f"{nm}|{n}", f"{n} does not refuse {what}", where, "P10-" + nm, [f.short]))
    g = lookup(p, c, m, TIMES)
    if g:
        tv = dict(variants("time_values", p))["ndarray"]
        need(go([Hook("time_values")], {x: vs["TSCDataFrame"], "U": const(None), "time_values": tv},
                {(E.SELF, k): const(False) for k in ("is_controlled", "is_controlled_")}), g, "the requested time values", "times")
    return res


def routine(ctx, m):
    p, res = ctx.p, Result()
    c = ctx.cls("InitialCondition")
    f = p.find_method(c, m)
    for x, groups in ROUTINES[m].items():
        ov = {q: dict(variants(q, p))["TSCDataFrame"] for q in f.user_params if q in ("X_ic", "U")}
        ov.update({q: Val(types=frozenset(["int" if q == "n_samples_ic" else "float"]), tags=frozenset(["!notnone"]), deps=frozenset([("param", q)]))
                   for q in f.user_params if q in ("n_samples_ic", "dt")})
        it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [Hook(x)], overrides=ov, meta=True, nonempty=True)
        for g in groups:
            res.count("obligations")
            if rs is not None and not any(("tested", k) in rs.facts for k in g):
                res.add(Finding(f"routine|{m}|{x}|{'/'.join(g)}", f"a path through InitialCondition.{m} does not test the required property "
                                f"{'/'.join(g).replace('P:', '')} of '{x}'", f"{f.module.rel}:{f.node.lineno}", "P10-routine", [f.short]))
    return res


def items(ctx):
    out, p = [], ctx.p
    for c in ctx.public_classes(exclude=set(C.EXPERIMENTAL) | set(C.SOLVER)):
        if not C.has_params(p, c) or experimental(p, c):
            continue
        for m, f in E.public_methods(p, c).items():
            if f.abstract or data_param(f) is None or (c.name, m) in SKIP:
                continue
            if lookup(p, c, m, NEEDS) or lookup(p, c, m, TSC_ONLY):
                out.append((c.name, m))
    return out


def step(ctx, item):
    return routine(ctx, item[1]) if item[0] == "InitialCondition" else one(ctx, item)


def run(ctx):
    return ctx.pmap(step, [("InitialCondition", m) for m in ROUTINES] + sorted(items(ctx), key=lambda i: (not i[0].startswith("EDMD"), i)))


SRC = """
import numpy as np
from sklearn.base import BaseEstimator
class TSCDataFrame:
    pass
class DMDBase(BaseEstimator):
    def _ok(self, X, const=False):
        if not isinstance(X, TSCDataFrame):
            raise TypeError("type")
        if const and not X.is_const_delta_time():
            raise ValueError("sampling")
        return X
    def _times(self, X):
        t = X.time_values()
        if (t < 0).any():
            raise ValueError("times")
    def fit(self, X, y=None):
        X = self._ok(X, const=True)
        self._times(X)
        return self
class A(DMDBase):
    pass
class B(DMDBase):
    def fit(self, X, y=None):
        X = self._ok(X)
        self._times(X)
        return self
class D(DMDBase):
    def fit(self, X, y=None):
        X = self._ok(X, const=True)
        try:
            self._times(X)
        except ValueError:
            pass
        return self
class F(DMDBase):
    def fit(self, X, y=None):
        if X.shape[0] > 2:
            X = self._ok(X, const=True)
        self._times(X)
        return self
class G(DMDBase):
    def _check(self, X):
        return isinstance(X, TSCDataFrame) and X.is_const_delta_time()
    def fit(self, X, y=None):
        if not self._check(X):
            raise ValueError("sampling")
        self._times(X)
        return self
"""


def selftest(ctx):
    from ..testkit import tiny
    from ..core import Ctx
    t = Ctx.__new__(Ctx)
    t.p, t.lib = tiny(SRC)
    return {c: bool(one(t, (c, "fit")).findings) == bad
            for c, bad in (("A", False), ("B", True), ("D", True), ("F", True), ("G", False))}
