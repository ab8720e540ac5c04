"""Use before fit is refused.

Every public query method of every class with a fit method is interpreted on an object on which only the
constructor has run.  A must-analysis tracks whether a refusal (check_is_fitted or one of the project's set-up
checks, found by what they do) has been passed.  Violations: (1) a fitted attribute is read before; (2) a method
that needs the model (it uses fitted state somewhere, or is one of transform, predict, ...) can return without it;
(3) a refusal that cannot refuse: the named attributes are not set by fit, or are already set by the constructor.
"""
import ast
from ..core import Finding, Result
from ..project import FuncInfo, ClassInfo
from ..interp import const, EMPTY
from .. import entry as E
from . import common as C

RULE = "on an unfitted object every path of a query raises a not-fitted error before fitted state is read or a result returned"
ASSUMPTIONS = ["scikit-learn's check_is_fitted raises iff the named (or any trailing-underscore) attributes are missing"]
MINIMUM = {"queries": 50, "guarded_exits": 50, "refusals": 20}

CORE = {"transform", "inverse_transform", "predict", "reconstruct", "score", "gradient", "koopman_eigenfunction",
        "koopman_eigenvalues", "koopman_modes", "predict_proba", "control_sequence", "control_sequence_horizon"}
FACT = "!refused"


def is_refusal(name):
    return name.split(".")[-1] == "check_is_fitted"


class Hook:
    def __init__(self, res, p, c, m, fitted, ctor):
        self.res, self.p, self.c, self.m, self.fitted, self.ctor = res, p, c, m, fitted, ctor
        self.reads, self.bad_exit, self.good_exit, self.caught = {}, None, 0, []

    # ---- refusals
    def on_call(self, it, target, node, args, kwargs, state, star=None, dstar=None, **k):
        if isinstance(target, str) and is_refusal(target) and (args or "estimator" in kwargs):
            o = args[0] if args else kwargs["estimator"]
            if E.SELF not in o.ident and not any(C.self_attr(l) for l in o.ident):
                return
            self.res.count("refusals")
            if E.SELF in o.ident:
                at = args[1] if len(args) > 1 else kwargs.get("attributes")
                if not self.establishes(it, node, at, args, kwargs):
                    return
            state.facts |= {FACT}

    def establishes(self, it, node, at, args, kwargs):
        """does this check_is_fitted call refuse an object on which only the constructor has run?"""
        if at is None or at.const == frozenset([None]):
            own = self.p.find_method(self.c, "__sklearn_is_fitted__")
            early = [n for n in self.ctor if n.endswith("_") and not n.startswith("__")]
            if early and not isinstance(own, FuncInfo):
                self.add(it, "vacuous|*", f"check_is_fitted(self) accepts the unfitted object: the constructor sets {early}", node)
                return False
            return True
        names = None
        if at.elems is not None and at.elems and all(e.const for e in at.elems):
            names = [next(iter(e.const)) for e in at.elems]
        elif at.const and all(isinstance(x, str) for x in at.const):
            names = sorted(at.const)
        if names is None:
            return True
        allany = args[3] if len(args) > 3 else kwargs.get("all_or_any")
        isany = allany is not None and "lib:builtins.any" in map(str, allany.fn)
        early = [n for n in names if n in self.ctor]
        unset = [n for n in names if n not in self.ctor and n not in self.fitted]
        if unset and not self.open:
            self.add(it, f"refusal|{','.join(unset)}", f"check_is_fitted names {unset}, which fit does not set: a fitted object is refused", node)
        return not (early if isany else len(early) == len(names))

    def add(self, it, key, msg, node):
        n = f"{self.c.name}.{self.m}"
        self.res.add(Finding(f"{key}|{n}".replace(" ", ""), f"{n}: {msg} (in {it.frame.func.short})", C.where(it, node), "P07-" + key.split("|")[0], C.chain(it)))

    # ---- uses
    def on_readattr(self, it, base, attr, node, state, **k):
        if not isinstance(node, ast.Attribute):
            return  # hasattr/getattr with default
        if E.SELF not in base.ident or attr not in self.fitted or attr in self.ctor:
            return
        if FACT in state.facts:
            self.good_exit += 1
            return
        # only inside try: ... except AttributeError
        fn = it.frame.func.node
        for t in ast.walk(fn):
            if isinstance(t, ast.Try) and any(x is node for b in t.body for x in ast.walk(b)) and any(
                    h.type is None or "AttributeError" in ast.unparse(h.type) or "Exception" in ast.unparse(h.type) for h in t.handlers):
                return
        self.reads.setdefault(attr, (it.frame.func.short, C.where(it, node), C.chain(it)))


def classes(ctx):
    out = []
    for c in ctx.public_classes(exclude=set(C.EXPERIMENTAL) | set(C.SOLVER)):
        ms = E.public_methods(ctx.p, c)
        if c.module.name.startswith("datafold.pcfold") or not ({"fit", "partial_fit"} & set(ms)):
            continue
        if any(isinstance(x, ast.Raise) and "NotImplementedError" in ast.unparse(x) for x in (ms.get("fit") or ms["partial_fit"]).node.body):
            continue
        out.append(c)
    return out


def attrs_of(ctx, cn):
    """(class, attribute, role): role F set by fitting, C set by the constructor or the class body"""
    p, c = ctx.p, ctx.cls(cn)
    res = Result()
    out = res.cov.setdefault("attrs", set())
    for a, ms in C.writers(p, c, ctx.lib).items():
        if ms & C.FITLIKE:
            out.add((cn, a, "F"))
        if "__init__" in ms:
            out.add((cn, a, "C"))
    for k in p.mro(c):
        if not isinstance(k, str):
            out |= {(cn, a, "C") for a in (getattr(k, "attrs", {}) or {})}
    return res


# queries of the names only; they are also used inside fit
NAMES = {"get_feature_names_out", "is_linear_system_setup"}


def one(ctx, item):
    cn, m, fitted, ctor = item
    p, c = ctx.p, ctx.cls(cn)
    res = Result()
    f = E.public_methods(p, c).get(m)
    h = Hook(res, p, c, m, fitted - ctor, ctor)
    # classes with scikit-learn bases get further attributes from there
    h.open = any(isinstance(b, str) and b.startswith("ext:sklearn.") and not b.startswith("ext:sklearn.base.") for b in p.mro(c))
    heap = {(E.SELF, "has:" + a): const(False) for a in (fitted | C.state_attrs(p, c)) - ctor}
    it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [h], heap=heap)
    res.count("queries")
    n = f"{cn}.{m}"
    for a, (fn, wh, ch) in h.reads.items():
        res.add(Finding(f"reads|{n}|{a}", f"{n} reads the fitted attribute '{a}' (in {fn}) before a not-fitted check", wh, "P07-reads", ch))
    needs = h.good_exit or h.reads or m in CORE
    if rs is None or FACT in rs.facts:
        res.count("guarded_exits")
    elif needs and not h.reads:
        res.add(Finding(f"returns|{n}", f"{n} can return on an unfitted object without a not-fitted check", f"{f.module.rel}:{f.node.lineno}", "P07-returns", [f.short]))
    elif not needs:
        res.count("stateless")
        res.sample(f"{n}: does not use fitted state")
    return res


def run(ctx):
    cs = classes(ctx)
    at = ctx.pmap(attrs_of, sorted((c.name for c in cs), key=heavy)).cov["attrs"]
    items = []
    for c in cs:
        fitted = frozenset(a for k, a, r in at if k == c.name and r == "F")
        ctor = frozenset(a for k, a, r in at if k == c.name and r == "C")
        for m, f in E.public_methods(ctx.p, c).items():
            if m in C.FITLIKE or m in C.CONFIGURE or m in NAMES or f.kind != "method" or f.is_property and m not in CORE or f.abstract:
                continue
            pr = ctx.p.find_method(c, "predict")
            if isinstance(pr, FuncInfo) and pr.abstract and any(
                    isinstance(x, ast.Attribute) and x.attr == "predict" for x in ast.walk(f.node)):
                continue  # offered by the mixin, but the model has no prediction
            items.append((c.name, m, fitted, ctor))
    return ctx.pmap(one, sorted(items, key=lambda i: heavy(i[0])))


def heavy(name):
    return (not name.startswith(("EDMD", "HAVOK", "TSCSampled")), name)


SRC = """
from sklearn.base import BaseEstimator
from sklearn.utils.validation import check_is_fitted
class A(BaseEstimator):
    def __init__(self, opt=None):
        self.opt = opt
    def fit(self, X, y=None):
        self.w_ = X
        return self
    def predict(self, X):
        return X @ self.w_
class B(A):
    def _ok(self):
        check_is_fitted(self)
    def predict(self, X):
        self._ok()
        return X @ self.w_
class D(A):
    def predict(self, X):
        if X is not None:
            check_is_fitted(self, "w_")
        return X @ self.w_
class G(A):
    def __init__(self, opt=None):
        self.opt = opt
        self.start_ = 0
    def predict(self, X):
        check_is_fitted(self)
        return X @ self.w_
class H(A):
    def predict(self, X):
        if not hasattr(self, "w_"):
            raise RuntimeError("not fitted")
        return X @ self.w_
class I(A):
    def predict(self, X):
        if X is None:
            return None
        check_is_fitted(self)
        return X @ self.w_
class J(A):
    def predict(self, X):
        check_is_fitted(self, "v_")
        return X @ self.w_
"""


def selftest(ctx):
    from ..testkit import tiny
    from ..core import Ctx
    p, lib = tiny(SRC)
    t = Ctx.__new__(Ctx)
    t.p, t.lib = p, lib
    out = {}
    for c, bad in (("A", True), ("B", False), ("D", True), ("G", True), ("H", False), ("I", True), ("J", True)):
        at = attrs_of(t, c).cov["attrs"]
        fitted = frozenset(a for _, a, r in at if r == "F")
        ctor = frozenset(a for _, a, r in at if r == "C")
        out[c] = bool(one(t, (c, "predict", fitted, ctor)).findings) == bad
    return out
