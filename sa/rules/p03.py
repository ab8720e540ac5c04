"""Applying a fitted object leaves it unchanged.

Every public method that is neither a fit nor a documented configuration step is interpreted; every
effect on the receiver (rebinding/deleting an attribute, in-place change of an object reachable from
one of its attributes) is reported.
"""
from ..core import Finding, Result
from .. import entry as E
from . import common as C
from ..interp import const

RULE = "query operations have no write effect on the receiver or on objects reachable from its attributes"
ASSUMPTIONS = ["user supplied kernels/callables do not modify the model", "library calls behave as modelled in sa/lib.py"]
SYSTEMS = False  # the example systems keep results of their last run, their signatures follow one scheme
MINIMUM = {"entry_points": 180, "effects_examined": 2000}
# objects that are not fitted models; their state changes are the purpose of the methods
OTHER = {
    "EarlyStopping": "counter object", "PCManifold": "covered by P01", "TSCDataFrame": "covered by P01",
    "InitialCondition": "static", "TSCAccessor": "covered by P01",
    "AffineKgMPC": "remembers the last lifted state together with the state it belongs to",
}


def vacant(state, attr):
    """on this path the attribute is known to be missing or None"""
    v = state.heap.get((E.SELF, attr))
    if v is not None and v.const == frozenset([None]):
        return True
    h = state.heap.get((E.SELF, "has:" + attr))
    return h is not None and h.const == frozenset([False])


class Hook:
    def __init__(self, res, name):
        self.res, self.name = res, name

    def add(self, it, attr, how, node):
        self.res.add(Finding(f"writes|{self.name}|{attr}", f"{self.name} changes the state '{attr}' of the object it is applied to ({how})",
                             C.where(it, node), "P03-query-writes", C.chain(it)))

    def on_setattr(self, it, base, attr, val, node, state, prop):
        self.res.count("effects_examined")
        if prop is not None:
            return
        for l in base.ident:
            a = attr if l == E.SELF else C.self_attr(l)
            if a is None:
                continue
            if l == E.SELF and val.ident == frozenset([("A", E.SELF, attr)]):
                continue
            if l == E.SELF and f"!same:{('A', E.SELF, attr)!r}" in val.tags:
                continue  # value-preserving conversion to a builtin number (see P02)
            if l == E.SELF and not any(d[0] == "param" for d in val.deps) and vacant(state, attr):
                self.res.count("lazy_attributes")  # computed once, from the fitted state alone
                continue
            if l != E.SELF and attr in ("name", "names"):
                labels = set(val.const or ()) | {c for e in val.elems or () for c in (e.const or ())}
                if labels in ({"ID", "time"}, {"feature"}):
                    continue  # mandatory level names (P01 known finding)
            self.add(it, attr if l == E.SELF else f"{a}.{attr}", "rebinds it" if l == E.SELF else f"sets .{attr}", node)

    def on_delattr(self, it, base, attr, node, state):
        if E.SELF in base.ident:
            self.add(it, attr, "deletes it", node)

    def on_mutate(self, it, val, how, node, state, **k):
        self.res.count("effects_examined")
        if "equal" in how:
            return
        for l in val.mem:
            a = C.self_attr(l)
            if a is not None:
                self.add(it, a, how, node)


DIST = {"DistanceAlgorithm"}  # search trees of the distance backends: see P18


def entries(ctx):
    out = []
    p = ctx.p
    for c in ctx.public_classes({**C.EXPERIMENTAL, **C.SOLVER, **OTHER}):
        if p.is_sub(c, "DistanceAlgorithm"):
            continue
        for m, f in E.public_methods(p, c, extra=("__call__", "__repr__")).items():
            if m in C.FITLIKE or m in C.CONFIGURE or f.kind != "method" or (m in ("__call__",) and not C.is_kernel(p, c) and c.name not in ("TSCMetric", "TSCScoring")):
                continue
            out.append((c.name, m))
    return out


def one(ctx, item):
    cn, m = item
    p, c = ctx.p, ctx.p.cls(cn)
    f = E.public_methods(p, c, extra=("__call__", "__repr__"))[m]
    res = Result()
    res.count("entry_points")
    # required arguments are given
    ov = {n: E.param(ctx.lib, p, f, n).repl(tags=frozenset(["!notnone"]))
          for n in f.user_params if n not in f.defaults and n not in (f.vararg, f.kwarg)}
    heap = C.fitted_parts(p, c, ctx.lib)
    if C.is_kernel(p, c) and m in C.KERNEL_CALLS:
        # kernels: only the evaluation at query points is a query, the one on X alone is the fitting step
        heap.update(C.fitted_heap(p, c))
        if "Y" in f.all_params:
            ov["Y"] = E.param(ctx.lib, p, f, "Y").repl(tags=frozenset(["!notnone"]))
        if "is_pdist" in f.all_params:
            ov["is_pdist"] = const(False)
    it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [Hook(res, f"{cn}.{m}")], overrides=ov, heap=heap)
    return res


def run(ctx):
    items = entries(ctx)
    items.sort(key=lambda e: 0 if e[0].startswith("EDMD") else 1)
    return ctx.pmap(one, items)


SRC = """
class A:
    def transform(self, X):
        if not hasattr(self, "cache_"):
            self.cache_ = X
        return self.cache_
    def predict(self, X):
        c = self.coef_.T
        c *= 2
        return X @ c
    def ok(self, X):
        c = self.coef_.copy()
        c *= 2
        return X @ c
    def lazy(self, X):
        if not hasattr(self, "inv_"):
            self.inv_ = self.coef_ + 1
        return self.inv_
    def lazy2(self, X):
        if self.inv_ is None:
            self.inv_ = self.coef_ + 1
        return self.inv_
    def count(self, X):
        self.n_ = self.n_ + 1
        return self.n_
"""


def selftest(ctx):
    from ..testkit import tiny
    p, lib = tiny(SRC)
    c = p.cls("A")
    out = {}
    for m, bad in (("transform", True), ("predict", True), ("ok", False), ("lazy", False), ("lazy2", False), ("count", True)):
        r = Result()
        E.run_entry(p, lib, c.methods[m], c, [Hook(r, "A." + m)])
        out[m] = bool(r.findings) == bad
    return out
