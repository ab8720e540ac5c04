"""Results do not expose the state of the model.

Every public operation is interpreted; at each exit the memory of the result (the array or frame itself, the elements of
returned tuples, lists and dictionaries) is compared with the memory that is reachable from the attributes of the
receiver at that point. They must be disjoint: writing into a result can then never change the options, the fitted
attributes or the caches of the object, and a result never changes when the object is used again.
"""
from ..core import Finding, Result
from .. import entry as E
from . import common as C, p07

RULE = "no memory of a returned array, frame or container is reachable from the attributes of the receiver"
ASSUMPTIONS = ["numpy/pandas/scipy/sklearn calls behave as in the library model sa/lib.py (views vs copies)",
               "properties are windows on the state by definition and are not results"]
MINIMUM = {"entry_points": 250, "results": 250}
# documented to return (a part of) the object itself
RETURNS_PART = {
    "TSCAccessor": "operations that relabel the collection in place and return it, iteration over windows of the collection",
    "EDMDWindowPrediction": "adapts the given model", "EDMDPostObservable": "fit_transform returns the fitted estimator (documented)", "DistanceAlgorithm": "internal search trees",
    "EarlyStopping": "verdict of the last update",
}
NAMES = {"get_feature_names_out": "read-only list of the names, shared by definition with the fitted names (as in scikit-learn)",
         "get_params": "parameter protocol: the options themselves"}


def content(v, rs):
    """values a result consists of"""
    out, todo, seen = [], [v], set()
    while todo:
        x = todo.pop()
        out.append(x)
        todo += list(x.elems or ())
        for l in x.ident:
            if l[0] == "F" and l not in seen:
                seen.add(l)
                if (l, "[]") in rs.heap:
                    todo.append(rs.heap[(l, "[]")])
    return out


def owned(rs):
    """memory reachable from the attributes of the receiver -> attribute"""
    slots = {}
    for (l, a), x in rs.heap.items():
        if isinstance(a, str) and not a.startswith("has:") and a != "#d":
            slots.setdefault(l, []).append((a, x))
    out = {}
    for a, x in slots.get(E.SELF, ()):
        todo = [x]
        while todo:
            y = todo.pop()
            todo += list(y.elems or ())
            for l in y.ident | y.buf:
                if l not in out and l[0] == "F":
                    out[l] = a
                    todo += [z for _, z in slots.get(l, ())]
    return out


def one(ctx, item):
    cn, m = item
    p, c = ctx.p, ctx.cls(cn)
    f = E.public_methods(p, c, extra=("__call__",))[m]
    return check(ctx, cn, m, f, c)


def check(ctx, cn, m, f, c):
    res = Result()
    it, rv, rs, ra = E.run_entry(ctx.p, ctx.lib, f, c, [], heap=C.fitted_parts(ctx.p, c, ctx.lib), alloc=True)
    res.count("entry_points")
    if rs is None:
        return res
    own = owned(rs)
    for v in content(rv, rs):
        if ctx.lib.immutable(v):
            continue
        res.count("results")
        for l in v.ident | v.buf:
            a = C.self_attr(l) or own.get(l)
            if a is not None:
                res.add(Finding(f"shares|{cn}.{m}|{a}", f"the result of {cn}.{m} shares memory with self.{a}",
                                f"{f.module.rel}:{f.node.lineno}", "P16-exposed-state", [f.short]))
    return res


def entries(ctx):
    out = []
    for c in ctx.public_classes({**C.EXPERIMENTAL, **C.SOLVER}):
        if any(ctx.p.is_sub(c, k) for k in RETURNS_PART):
            continue
        for m, f in E.public_methods(ctx.p, c, extra=("__call__",)).items():
            if f.kind == "method" and not f.is_property and not f.abstract and m not in NAMES:
                out.append((c.name, m))
    return out


def run(ctx):
    return ctx.pmap(one, sorted(entries(ctx), key=lambda i: p07.heavy(i[0])))


SRC = """
import numpy as np
class A:
    def fit(self, X):
        self.w_ = X * 2
        self.l_ = [X + 1]
        return self
    def fit_transform(self, X):
        self.fit(X)
        return self.w_[:, :3]
    def fit_transform_ok(self, X):
        self.fit(X)
        return self.w_[:, :3] * 1
    def transform(self, X):
        return np.asarray(self.w_).T
    def pair(self, X):
        return X, self.w_.reshape(-1)
    def items(self, X):
        out = []
        for k in self.l_:
            out.append(k)
        return out
    def copied(self, X):
        return [k.copy() for k in self.l_], self.w_[:, [0, 1]], float(self.w_[0, 0])
    def cached(self, X):
        if not hasattr(self, "inv_"):
            self.inv_ = np.linalg.pinv(self.w_)
        return self.inv_
"""


def selftest(ctx):
    from ..testkit import tiny
    from ..core import Ctx
    t = Ctx.__new__(Ctx)
    t.p, t.lib = tiny(SRC)
    c = t.p.cls("A")
    return {m: bool(check(t, "A", m, c.methods[m], c).findings) == bad for m, bad in
            (("fit", False), ("fit_transform", True), ("fit_transform_ok", False), ("transform", True), ("pair", True), ("items", True),
             ("copied", False), ("cached", True))}
