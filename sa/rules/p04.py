"""A refit forgets the previous fit.

`fit` of every estimator is interpreted on an object in an arbitrary earlier state.  Two rules:
(1) no read (also hasattr/getattr) of an attribute that was left by an earlier fit or query before this fit
has overwritten or deleted it; (2) when fit returns, every attribute that fit sets on some path and every
cache that a query fills lazily has been overwritten or deleted on all paths.
"""
import ast
from ..core import Finding, Result
from ..project import FuncInfo
from .. import entry as E
from . import common as C

RULE = ("fit: no upward-exposed use of fitted attributes; every fitted or cached attribute is (re)defined on all paths to the exit")
ASSUMPTIONS = ["sub-estimators supplied by the user are refitted by their own fit (checked for the shipped ones)",
               "attributes set by configuration methods (e.g. set_target_coords) persist by design"]
MINIMUM = {"fits": 25, "attribute_obligations": 80}

EXEMPT = {
    ("EDMD", "is_partial_fit_"): "mode marker: fit refuses to run on a model that was set up with partial_fit",
    ("FeedforwardNN", "val_losses_"): "loss record: allocated and filled under the same two conditions",
}


class Writes:
    """collects attributes of self bound by a method (directly or in callees)"""

    def __init__(self):
        self.attrs, self.pcs = {}, {}

    def on_setattr(self, it, base, attr, val, node, state, prop):
        if prop is None and E.SELF in base.ident:
            self.attrs.setdefault(attr, C.where(it, node))
            self.pcs.setdefault(attr, []).append(state.pc)


class Uses(Writes):
    def __init__(self, res, name, watched):
        super().__init__()
        self.res, self.name, self.watched, self.found = res, name, watched, {}

    def on_readattr(self, it, base, attr, node, state):
        if E.SELF not in base.ident:
            return
        self.res.count("attribute_reads")
        v = state.heap.get((E.SELF, attr))
        if v is not None and ("A", E.SELF, attr) not in v.ident:
            return
        h = state.heap.get((E.SELF, "has:" + attr))
        if v is not None and h is not None and h.const == frozenset([False]):
            return
        self.found.setdefault(attr, (C.where(it, node), C.chain(it), it.frame.func.short))


def method_writes(ctx, c, m, f):
    h = Writes()
    E.run_entry(ctx.p, ctx.lib, f, c, [h])
    return h.attrs


def one(ctx, item):
    cn, m = item
    p, c = ctx.p, ctx.p.cls(cn)
    res = Result()
    res.count("fits")
    meths = E.public_methods(p, c, extra=("__call__",))
    init = set(C.ctor_params(p, c))
    f0 = C.init_of(p, c)
    if f0 is not None:
        init_w = method_writes(ctx, c, "__init__", f0)
    else:
        init_w = {}
    h = Uses(res, f"{cn}.{m}", ())
    it, rv, rs, ra = E.run_entry(p, ctx.lib, meths[m], c, [h])
    written = h.attrs
    config = set()
    lazy = {}
    for n, f in meths.items():
        if f.kind != "method" or n in C.FITLIKE:
            continue
        w = quick_writes(ctx, c, f)
        if n in C.CONFIGURE:
            config |= w
        else:
            for a in w:
                lazy.setdefault(a, n)
    owned = (set(written) | set(lazy)) - (config - set(written)) - init
    props = C.property_names(p, c)
    opts = set(C.ctor_params(p, c)) | (set(init_w) - owned)
    used = reads(ctx, c, m)
    for a, (wh, chain, fn) in sorted(h.found.items()):
        if (cn, a) in EXEMPT:
            res.count("exempt_attributes")
        elif gone(rs, a):
            pass  # hasattr/del idiom: removed on all paths
        elif a in owned and a not in props:
            res.add(Finding(f"reads|{cn}.{m}|{a}", f"{cn}.{m} uses the attribute '{a}' left by an earlier call before setting it anew "
                            f"(in {fn})", wh, "P04-stale-read", chain))
    if rs is not None:
        for a in sorted(owned - props):
            res.count("attribute_obligations")
            v = rs.heap.get((E.SELF, a))
            if gone(rs, a):
                continue  # deleted if it was there
            if v is None or ("A", E.SELF, a) in v.ident:
                if a in written and any(h.pcs[a]) and all(d[0] == "attr" and d[1] in opts for pc in h.pcs[a] for d in pc):
                    res.count("option_dependent_attributes")  # the same options take the same path
                    continue
                if a not in used:
                    res.count("output_only_attributes")  # never read by the library
                    continue
                how = f"a path through {cn}.{m} leaves" if a in written else f"{cn}.{m} does not reset"
                res.add(Finding(f"stale|{cn}.{m}|{a}", f"{how} the attribute '{a}' of an earlier "
                                + ("fit" if a in written else f"call of {lazy[a]}"),
                                written.get(a) or f"{meths[m].module.rel}:{meths[m].node.lineno}", "P04-stale-attribute"))
    return res


def gone(st, a):
    h = st.heap.get((E.SELF, "has:" + a)) if st is not None else None
    return h is not None and h.const == frozenset([False])


def reads(ctx, c, fit):
    """attributes read on self by the methods of the class other than the fit itself"""
    out = set()
    for k in ctx.p.mro(c):
        if isinstance(k, str):
            continue
        for n, f in k.methods.items():
            if n == "fit":
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) \
                        and f.args and x.value.id == f.args[0]:
                    out.add(x.attr)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                    out.add(x.value)  # hasattr/getattr/check_is_fitted
    return out


def quick_writes(ctx, c, f, _cache={}):
    """attributes of self bound in f or in self-methods it calls (transitively, by name on the class)"""
    k = (id(ctx.p), c.qual, f.qual)
    if k in _cache:
        return _cache[k]
    out, seen, todo = set(), set(), [f]
    while todo:
        g = todo.pop()
        if g.qual in seen:
            continue
        seen.add(g.qual)
        if not g.args:
            continue
        me = g.args[0]
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                if isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                else:
                    t = ctx.p.find_method(c, n.attr)
                    if isinstance(t, FuncInfo) and n.attr not in C.FITLIKE and n.attr not in C.CONFIGURE:
                        todo.append(t)
    _cache[k] = out
    return out


def items(ctx):
    out = []
    for c in ctx.public_classes({**C.EXPERIMENTAL, **C.SOLVER}):
        if not C.has_params(ctx.p, c):
            continue
        ms = E.public_methods(ctx.p, c)
        f = ms.get("fit")
        if f is None or any("abstractmethod" in ast.unparse(d) for d in f.node.decorator_list):
            continue
        out.append((c.name, "fit"))
        if "fit_transform" in ms:
            out.append((c.name, "fit_transform"))
    return out


def run(ctx):
    its = items(ctx)
    its.sort(key=lambda e: 0 if e[0].startswith("EDMD") else 1)
    return ctx.pmap(one, its)


SRC = """
from sklearn.base import BaseEstimator
class A(BaseEstimator):
    def __init__(self, opt=None):
        self.opt = opt
    def fit(self, X, y=None):
        self.w_ = X
        return self
    def predict(self, X):
        if not hasattr(self, "inv_"):
            self.inv_ = self.w_ + 1
        return X @ self.inv_
class B(A):
    def fit(self, X, y=None):
        self.w_ = X
        self.inv_ = None
        return self
class D(A):
    def fit(self, X, y=None):
        if not hasattr(self, "w_"):
            self.w_ = X
        self.inv_ = None
        return self
class G(A):
    def fit(self, X, y=None):
        self.inv_ = None
        if y is not None:
            self.w_ = X
        return self
class H(A):
    def fit(self, X, y=None):
        self._reset()
        if self.opt is None:
            self.w_ = X
        else:
            self.w_ = X + 1
        return self
    def _reset(self):
        if hasattr(self, "inv_"):
            del self.inv_
"""


def selftest(ctx):
    from ..testkit import tiny
    from ..core import Ctx
    p, lib = tiny(SRC)
    t = Ctx.__new__(Ctx)
    t.p, t.lib = p, lib
    out = {}
    for c, bad in (("A", True), ("B", False), ("D", True), ("G", True), ("H", False)):
        out[c] = bool(one(t, (c, "fit")).findings) == bad
    return out
