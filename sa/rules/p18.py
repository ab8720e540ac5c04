"""Changed options take effect: set_params is as good as a new object.

scikit-learn's `set_params` (grid searches, pipelines, clones) assigns options without running the constructor again.
Label flow through the constructor yields the attributes that it derives from options; an operation may read such an
attribute only after re-deriving it (in the same operation, or in `fit`, which has to come before the queries).
"""
from ..core import Finding, Result
from ..project import FuncInfo
from .. import entry as E
from . import common as C, p07

RULE = "no operation reads an attribute that only the constructor derived from options"
ASSUMPTIONS = ["objects with the scikit-learn parameter protocol", "an option passed to a library base class is stored there by reference"]
MINIMUM = {"classes": 25, "entry_points": 200, "constructor_attributes": 200}


def derived(ctx, c, res):
    """attribute -> options it was computed from by the constructor"""
    p = ctx.p
    f = C.init_of(p, c)
    if f is None:
        return {}
    opts = set(C.ctor_params(p, c)) | ({f.kwarg} if f.kwarg else set())
    it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [], flow=True, alloc=True)
    out = {}
    if rs is None:
        return out
    for (l, a), v in rs.heap.items():
        if l != E.SELF or not isinstance(a, str) or a.startswith("has:") or a == "#d":
            continue
        res.count("constructor_attributes")
        if a in opts:
            continue
        x = {y[1] for y in it.deep(v, rs, stop=(E.SELF,)) if y[0] == "param"}
        for l2 in v.ident | v.buf:
            while l2[0] == "A":
                l2 = l2[1]
            if l2[0] == "P":
                x.add(l2[1])
        if x & opts:
            out[a] = sorted(x & opts)
    return out


class Reads:
    """reads of self.<attr> of a value that was there before the operation"""

    def __init__(self, attrs):
        self.attrs, self.found = attrs, {}

    def on_readattr(self, it, base, attr, node, state):
        if E.SELF in base.ident and attr in self.attrs and (E.SELF, attr) not in state.heap:
            self.found.setdefault(attr, (C.where(it, node), C.chain(it)))


def refit(ctx, c, attrs):
    """attributes that every fit of the class re-derives (without having read them)"""
    out = None
    for m in ("fit", "partial_fit", "fit_transform"):
        f = ctx.p.find_method(c, m)
        if not isinstance(f, FuncInfo):
            continue
        h = Reads(attrs)
        it, rv, rs, ra = E.run_entry(ctx.p, ctx.lib, f, c, [h])
        if rs is None:
            continue
        w = {a for a in attrs if a not in h.found and (E.SELF, a) in rs.heap and must(rs, a)}
        out = w if out is None else out & w
    return out or set()


def must(rs, a):
    """a was assigned on every path: the old value is not one of the possible ones"""
    return ("A", E.SELF, a) not in rs.heap[(E.SELF, a)].ident


def one(ctx, cn):
    c = ctx.cls(cn)
    return check(ctx, cn, c)


def check(ctx, cn, c):
    res = Result()
    D = derived(ctx, c, res)
    res.count("classes")
    res.count("derived_attributes", len(D))
    fresh = refit(ctx, c, set(D)) if D else set()
    for m, f in E.public_methods(ctx.p, c, extra=("__call__", "__len__", "__getitem__")).items():
        if f.kind != "method" or f.abstract:
            continue
        res.count("entry_points")
        h = Reads(set(D) - fresh)
        if D:
            E.run_entry(ctx.p, ctx.lib, f, c, [h])
        for a, (w, ch) in h.found.items():
            res.add(Finding(f"stale|{cn}|{a}", f"{cn}.{m} uses self.{a}, which only the constructor derives from the options {D[a]} "
                            f"(stale after set_params)", w, "P18-stale-derived", ch))
    return res


def entries(ctx):
    return [c.name for c in ctx.public_classes({**C.EXPERIMENTAL, **C.SOLVER}) if C.has_params(ctx.p, c)
            and c.name not in ABSTRACT]


ABSTRACT = {"BaseManifoldKernel", "PCManifoldKernel", "TSCManifoldKernel"}  # their option is a declaration of the subclass


def run(ctx):
    return ctx.pmap(one, sorted(entries(ctx), key=p07.heavy))


SRC = """
from sklearn.base import BaseEstimator
import numpy as np
class Good(BaseEstimator):
    def __init__(self, rank, mode):
        self.rank = rank
        self.mode = mode
        self.kind_ = "a" if mode else "b"
        self.unused = 2 * rank
        self.constant = 3
    def fit(self, X):
        self.kind_ = "a" if self.mode else "b"
        return self
    def predict(self, X):
        if self.kind_ == "a":
            return X * self.rank + self.constant
        return X
class Bad(BaseEstimator):
    def __init__(self, rank, mode):
        self.rank = rank
        self.mode = mode
        self.kind = "a" if mode else "b"
        self.solver = self._select()
    def _select(self):
        if self.rank > 3:
            return np.linalg.eig
        return np.linalg.eigh
    def fit(self, X):
        if X is None:
            self.kind = "c"
        self.e_ = self.solver(X)
        return self
    def predict(self, X):
        return X if self.kind == "a" else self.e_
"""


def selftest(ctx):
    from ..testkit import tiny
    from ..core import Ctx
    t = Ctx.__new__(Ctx)
    t.p, t.lib = tiny(SRC)
    return {"good": not check(t, "Good", t.p.cls("Good")).findings,
            "bad": set(check(t, "Bad", t.p.cls("Bad")).findings) == {"stale|Bad|kind", "stale|Bad|solver"}}
