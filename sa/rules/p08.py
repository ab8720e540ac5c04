"""A fitted object is complete.

(1) fit, partial_fit and the set-up operations return the very object they were called on, on every normal path.
(2) Typestate of the fitted attributes per configuration: the options (and optional fit arguments) on which branches of
the class depend are enumerated; under every combination fit is interpreted with must-facts 'attribute a was set', then
every query is interpreted on the resulting object. A read of an attribute that fitting sets in some configuration but
not certainly in this one is reported, also inside fit itself.
"""
import ast
import itertools
from ..core import Finding, Result
from ..project import FuncInfo
from ..interp import const, Val, EMPTY
from .. import entry as E
from . import common as C
from . import p07, p09

RULE = ("per configuration: every read of a fitted attribute in fit and in queries is preceded on all paths by its definition; "
        "fit/partial_fit/set-up return self on every normal path")
ASSUMPTIONS = ["configurations are combinations of option values (all values for booleans and Literals, None/given for optional ones), "
               "capped at MAXCONF per class (then: all pairs of values)",
               "the attributes that scikit-learn base classes set are known to scikit-learn"]
SYSTEMS = False  # the example systems keep results of their last run, their signatures follow one scheme
MINIMUM = {"returns_self": 30, "configurations": 60, "queries": 150, "attribute_reads": 200}
MAXCONF = {"quick": 24, "thorough": 160}
EXEMPT = {("FeedforwardNN", "val_losses_"): "loss record: allocated and filled under the same two conditions"}
# queries that every fitted model answers, whatever its options; the others must be answered for some options
ALWAYS = {"transform", "inverse_transform", "predict", "reconstruct", "score", "get_feature_names_out"}
NO_SPECTRAL = {("gDMDAffine", "compute_spectral_system_states"): "the model has no spectral mode"}
INITIAL = {("StreamingDMD", "fit"): "documented as internal first step of partial_fit"}
DATA = ("arg", "container of the data")
GIVEN = Val(tags=frozenset(["!notnone"]))


class Probe:
    """options and fit arguments on which undecided branches depend"""

    def __init__(self):
        self.opts, self.args = set(), set()

    def on_branch(self, it, node, truth, state):
        if truth is not None:
            return
        for d in it.cond_deps(node.test, state):
            if d[0] == "attr":
                self.opts.add(d[1])
            elif d[0] == "param":
                self.args.add(d[1])


class Track:
    """must-facts ('set', attribute); reads of fitted attributes without the fact"""

    def __init__(self, res, p, c, fitted, first=False):
        self.res, self.c, self.fitted, self.bad = res, c, fitted, {}
        # fitting of an unfitted object, the model asks whether it is fitted
        self.first = first
        self.nested = any(b == "ext:sklearn.pipeline.Pipeline" for b in p.mro(c))

    def on_call(self, it, target, node, args, kwargs, state, star=None, dstar=None, **k):
        if self.first and isinstance(target, str) and p07.is_refusal(target) and len(args) == 1 and "attributes" not in kwargs \
                and E.SELF in args[0].ident and not (any(str(x[1]).endswith("_") for x in state.facts if x[0] == "set") and not self.nested):
            it.lib.fail(it, node, state, "NotFittedError")
        elif isinstance(target, str) and p07.is_refusal(target) and E.SELF in args[0].ident:
            at = args[1] if len(args) > 1 else kwargs.get("attributes")
            for v in (at.elems or (at,)) if at is not None and "all_or_any" not in kwargs else ():
                if v.const and len(v.const) == 1:
                    state.facts |= {("set", next(iter(v.const)))}

    def on_guard(self, it, node, deps, state):
        # refused unless ... : the guard examined whether the attributes are there
        for d in deps:
            if d[0] == "attr" and d[1] in self.fitted:
                state.facts |= {("set", d[1])}

    def on_setattr(self, it, base, attr, val, node, state, prop):
        if prop is None and base.ident == frozenset([E.SELF]):
            state.facts |= {("set", attr)}
            state.heap[(E.SELF, "has:" + attr)] = const(True)

    def on_delattr(self, it, base, attr, node, state):
        if E.SELF in base.ident:
            state.facts -= {("set", attr)}

    def on_readattr(self, it, base, attr, node, state, **k):
        if base.ident != frozenset([E.SELF]) or attr not in self.fitted or not isinstance(node, ast.Attribute) or (self.c.name, attr) in EXEMPT:
            return
        self.res.count("attribute_reads")
        if ("set", attr) in state.facts:
            return
        h = state.heap.get((E.SELF, "has:" + attr))
        if h is not None and h.const == frozenset([True]):
            return
        for fr in it.stack:
            for t in ast.walk(fr.func.node):
                if isinstance(t, ast.Try) and any(h.type is None or "AttributeError" in ast.unparse(h.type) or "Exception" in ast.unparse(h.type)
                                                  for h in t.handlers) and any(x is node for b in t.body for x in ast.walk(b)):
                    return
        self.bad.setdefault(attr, (it.frame.func.short, C.where(it, node), C.chain(it)))


def domain(default, ann):
    t = ast.unparse(ann) if ann is not None else ""
    lits = [e.value for n in ast.walk(ann) if isinstance(n, ast.Subscript) and ast.unparse(n.value).endswith("Literal")
            for e in ast.walk(n.slice) if isinstance(e, ast.Constant)] if ann is not None else []
    isdef = isinstance(default, ast.Constant)
    if lits:
        out = [const(x) for x in lits]
        if isdef and default.value not in lits:
            out.append(const(default.value))
        if "bool" in t:
            out += [const(True), const(False)]
        return out
    if t == "bool" or isdef and isinstance(default.value, bool):
        out = [const(True), const(False)]
        if isdef and default.value is None or "Optional" in t:
            out.append(const(None))
        return out
    if isdef and default.value is None or "Optional" in t or "None" in t:
        return [const(None), GIVEN]
    if isdef and isinstance(default.value, str):
        return [const(default.value), Val(types=frozenset(["str"]), tags=frozenset(["!notnone"]))]
    return None


def literals(p, c, opt):
    """string constants that the option is compared with in the class"""
    out = set()
    for k in p.mro(c):
        if isinstance(k, str):
            continue
        for n in ast.walk(k.node):
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Attribute) and n.left.attr == opt:
                for x in n.comparators:
                    for e in ([x] if isinstance(x, ast.Constant) else getattr(x, "elts", [])):
                        if isinstance(e, ast.Constant) and isinstance(e.value, str):
                            out.add(e.value)
    return sorted(out)


def configurations(ctx, c, m, f):
    """list of (option values, fit argument values)"""
    p = ctx.p
    pr = Probe()
    E.run_entry(p, ctx.lib, f, c, [pr])
    init = C.init_of(p, c)
    dims = []
    for o in sorted(set(C.ctor_params(p, c)) & pr.opts):
        d = domain(init.defaults.get(o), init.annotations.get(o))
        ls = literals(p, c, o)
        if ls and d is not None and any("str" in v.types for v in d):
            d = [const(x) for x in ls]
        if d:
            dims.append([(("opt", o), v) for v in d])
    for a in sorted(set(f.user_params) & pr.args):
        if a in ("X", "y"):
            continue
        d = domain(f.defaults.get(a), f.annotations.get(a))
        if d:
            dims.append([(("arg", a), v) for v in d])
    n = 1
    for d in dims:
        n *= len(d)
    if n <= MAXCONF[getattr(ctx, "tier", "quick")]:
        confs = [dict(x) for x in itertools.product(*dims)]
    else:
        confs, todo = [], set()
        for i, j in itertools.combinations(range(len(dims)), 2):
            todo |= {((i, a), (j, b)) for a in range(len(dims[i])) for b in range(len(dims[j]))}
        while todo:
            # greedy pairwise cover
            pick = {}
            for (i, a), (j, b) in sorted(todo):
                if pick.get(i, a) == a and pick.get(j, b) == b:
                    pick[i], pick[j] = a, b
            for i in range(len(dims)):
                pick.setdefault(i, 0)
            todo -= {((i, pick[i]), (j, pick[j])) for i, j in itertools.combinations(range(len(dims)), 2)}
            confs.append(dict(dims[i][a] for i, a in pick.items()))
    return confs


def show(conf):
    def s(v):
        if v.const:
            return repr(next(iter(v.const)))
        return "given"
    return ", ".join(f"{k[1]}={s(v)}" for k, v in sorted(conf.items(), key=lambda x: x[0])) or "any"


def ctor_consts(ctx, c, conf):
    """attributes that the constructor fixes (no options), e.g. the mode of models that have only one"""
    f = C.init_of(ctx.p, c)
    if f is None:
        return {}
    it, rv, rs, ra = E.run_entry(ctx.p, ctx.lib, f, c, [], overrides={k[1]: v for k, v in conf.items() if k[0] == "opt"})
    opts = set(C.ctor_params(ctx.p, c))
    return None if rs is None else {k: v for k, v in rs.heap.items() if k[0] == E.SELF and isinstance(k[1], str) and not k[1].startswith("has:")
                                  and k[1] not in opts and v.const is not None and len(v.const) == 1}


def data(p, f, kind):
    """the data argument of the operation as an object of the given container type"""
    x = p09.data_param(f)
    if kind is None or x is None:
        return {}
    return {x: next(v for t, v in p09.variants(x, p) if t == next(iter(kind.const)))}


def containers(f):
    """the container types that the operation takes: all of them unless the signature names one"""
    x = p09.data_param(f)
    if x is None:
        return []
    a = next(a for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if a.arg == x).annotation
    t = getattr(a, "id", getattr(a, "attr", getattr(a, "value", None)))
    return [t] if t in p09.TYPES else list(p09.TYPES)


def one(ctx, item):
    cn, m, ci, conf, fitted, ctor = item
    p, c = ctx.p, ctx.cls(cn)
    res = Result()
    ms = E.public_methods(p, c)
    f = ms[m]
    watched = fitted - ctor - set(C.ctor_params(p, c)) - {"steps"}
    heap = ctor_consts(ctx, c, conf)
    if heap is None:
        res.count("refused_configurations")
        return res
    heap |= {(E.SELF, k[1]): v.repl(deps=frozenset([("attr", k[1])])) for k, v in conf.items() if k[0] == "opt"}
    opts = dict(heap)
    heap.update({(E.SELF, "has:" + a): const(False) for a in (watched | C.state_attrs(p, c)) - ctor})
    over = {k[1]: v.repl(deps=frozenset([("param", k[1])])) for k, v in conf.items() if k[0] == "arg"}
    kind = conf.get(DATA)
    over.update(data(p, f, kind))
    h = Track(res, p, c, watched, True)
    it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [h], heap=heap, overrides=over)
    if rs is None:
        res.count("refused_configurations")
        return res
    res.count("configurations")

    def report(n, m2):
        for a, (fn, wh, ch) in h.bad.items():
            res.add(Finding(f"unset|{n}|{a}", f"{n}{m2} reads '{a}' (in {fn}), which {cn}.{m} has not set on every path for {show(conf)}",
                            wh, "P08-unset", ch))
    report(f"{cn}.{m}", "")
    facts = frozenset(x for x in rs.facts if isinstance(x, tuple) and x[0] == "set")
    state = {k: v for k, v in rs.heap.items() if k[0] == E.SELF and not (isinstance(k[1], str) and k[1].startswith("has:"))}
    keep = dict(opts)
    for (l, a), v in state.items():
        if isinstance(a, str) and a in watched and ("set", a) in facts:
            keep[(l, a)] = Val(const=v.const, types=v.types, deps=frozenset([("attr", a)]), tags=frozenset(t for t in v.tags if t == "!notnone"),
                               ident=frozenset([("A", E.SELF, a)]) if v.const is None else EMPTY, fn=v.fn)
    keep.update({k: v for k, v in heap.items() if k not in keep and isinstance(k[1], str) and not k[1].startswith("has:")})
    for a in watched:
        if ("set", a) in facts:
            keep[(E.SELF, "has:" + a)] = const(True)
        else:
            v = rs.heap.get((E.SELF, "has:" + a))
            if v is not None and v.const == frozenset([False]):
                keep[(E.SELF, "has:" + a)] = v
    for q in queries(ctx, c):
        res.count("queries")
        h = Track(res, p, c, watched)
        it, rv, rs, ra = E.run_entry(p, ctx.lib, ms[q], c, [h], heap=keep, facts=facts, overrides=data(p, ms[q], kind))
        report(f"{cn}.{q}", f" after {m}")
        if q in C.FITLIKE:
            continue
        res.cov.setdefault("asked", set()).add((cn, q))
        if rs is not None:
            res.cov.setdefault("answered", set()).add((cn, q))
        elif q in ALWAYS and (cn, m) not in INITIAL and kind is None:
            res.add(Finding(f"refuses|{cn}.{q}", f"{cn}.{q} has no path to a result after {m} for {show(conf)}",
                            f"{ms[q].module.rel}:{ms[q].node.lineno}", "P08-refuses", [ms[q].short]))
    return res


def queries(ctx, c):
    p = ctx.p
    out = []
    for m, f in E.public_methods(p, c).items():
        if m in C.CONFIGURE or m in ("fit", "fit_transform", "fit_predict") or f.kind != "method" or f.is_property and m not in p07.CORE or f.abstract:
            continue
        pr = p.find_method(c, "predict")
        if isinstance(pr, FuncInfo) and pr.abstract and any(isinstance(x, ast.Attribute) and x.attr == "predict" for x in ast.walk(f.node)):
            continue
        out.append(m)
    return sorted(out)


def selfret(ctx, item):
    cn, m = item
    p, c = ctx.p, ctx.cls(cn)
    res = Result()
    f = E.public_methods(p, c)[m]
    it, rv, rs, ra = E.run_entry(p, ctx.lib, f, c, [])
    if rs is None:
        return res
    res.count("returns_self")
    if rv.ident != frozenset([E.SELF]) or rv.const is not None or "maybenone" in rv.tags:
        what = "None" if rv.const == frozenset([None]) or "maybenone" in rv.tags else "something else"
        res.add(Finding(f"returns|{cn}.{m}", f"{cn}.{m} does not return the object itself on every path (but {what})",
                        f"{f.module.rel}:{f.node.lineno}", "P08-returns", [f.short]))
    return res


def prep(ctx, cn):
    p, c = ctx.p, ctx.cls(cn)
    res = p07.attrs_of(ctx, cn)
    ms = E.public_methods(p, c)
    cs = res.cov.setdefault("confs", set())
    for m in ("fit", "partial_fit", "fit_transform"):
        if m in ms and not ms[m].abstract:
            confs = configurations(ctx, c, m, ms[m])
            confs += [{**conf, DATA: const(t)} for t in containers(ms[m]) for conf in confs]
            for i, conf in enumerate(confs):
                cs.add((cn, m, i, tuple(sorted(conf.items(), key=lambda x: x[0]))))
    return res


def run(ctx):
    cs = p07.classes(ctx)
    r = ctx.pmap(prep, sorted((c.name for c in cs), key=p07.heavy))
    at = r.cov["attrs"]
    items = []
    for cn, m, i, conf in r.cov["confs"]:
        fitted = frozenset(a for k, a, ro in at if k == cn and ro == "F")
        ctor = frozenset(a for k, a, ro in at if k == cn and ro == "C")
        items.append((cn, m, i, dict(conf), fitted, ctor))
    items.sort(key=lambda i: (p07.heavy(i[0]), i[1], i[2]))
    res = ctx.pmap(one, items)
    for cn, q in sorted(res.cov.get("asked", set()) - res.cov.get("answered", set()) - set(NO_SPECTRAL)):
        f = E.public_methods(ctx.p, ctx.cls(cn))[q]
        res.add(Finding(f"never|{cn}.{q}", f"{cn}.{q} has no path to a result for any configuration of a fitted model",
                        f"{f.module.rel}:{f.node.lineno}", "P08-never", [f.short]))
    rets = [(c.name, m) for c in ctx.public_classes({**C.EXPERIMENTAL, **C.SOLVER}) for m, f in E.public_methods(ctx.p, c).items()
            if m in ("fit", "partial_fit", "setup_spectral_system", "setup_matrix_system") and f.kind == "method" and not f.abstract]
    res.merge(ctx.pmap(selfret, sorted(rets, key=lambda i: p07.heavy(i[0]))))
    return res


SRC = """
from sklearn.base import BaseEstimator
from sklearn.utils.validation import check_is_fitted
import pandas as pd
class TSCDataFrame(pd.DataFrame):
    pass
class A(BaseEstimator):
    def __init__(self, opt: bool = False, other=None):
        self.opt = opt
        self.other = other
    def fit(self, X, y=None):
        self.w_ = X
        if self.opt:
            self.v_ = X
        return self
    def predict(self, X):
        check_is_fitted(self)
        if self.opt:
            return X @ self.v_
        return X @ self.w_
class B(A):
    def predict(self, X):
        check_is_fitted(self)
        return X @ self.w_ @ self.v_
class D(A):
    def fit(self, X, y=None):
        self.w_ = X
        if y is not None:
            self.v_ = X
        return self
class G(A):
    def predict(self, X):
        check_is_fitted(self)
        if not hasattr(self, "v_"):
            raise ValueError("not available")
        return X @ self.v_
class H(A):
    def fit(self, X, y=None):
        self.w_ = X
        self._extra(X)
        if self.other is not None:
            return self
        return self.w_
    def _extra(self, X):
        if self.opt:
            self.v_ = X
class I(A):
    def fit(self, X, y=None):
        self.w_ = X + self.v_
        self.v_ = X
        return self
class K(A):
    def fit(self, X, y=None):
        self.w_ = self.v_ = X
        if len(X) < 3:
            return
        return self
class J(A):
    def predict(self, X):
        check_is_fitted(self)
        return X @ getattr(self, "v_", self.w_)
"""


def selftest(ctx):
    from ..testkit import tiny
    from ..core import Ctx
    p, lib = tiny(SRC)
    t = Ctx.__new__(Ctx)
    t.p, t.lib = p, lib
    out = {}
    for c, bad in (("A", False), ("B", True), ("D", True), ("G", True), ("H", True), ("I", True), ("K", True), ("J", False)):
        r = prep(t, c)
        fitted = frozenset(a for _, a, ro in r.cov["attrs"] if ro == "F")
        ctor = frozenset(a for _, a, ro in r.cov["attrs"] if ro == "C")
        found = Result()
        for cn, m, i, conf in r.cov["confs"]:
            found.merge(one(t, (cn, m, i, dict(conf), fitted, ctor)))
        found.merge(selfret(t, (c, "fit")))
        out[c] = bool(found.findings) == bad
    return out
